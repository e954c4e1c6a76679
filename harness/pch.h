#include <fst/fstlib.h>
#include <unicode/unistr.h>
#include <unicode/ustream.h>
#include <spdlog/spdlog.h>
#include <json/json.h>
#include <codecvt>
#include <iomanip>
#include <fstream>
