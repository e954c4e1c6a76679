# Runs a script that draws random numbers under every sequence of draws (stateless
# depth-first exploration) from a
# prefix on, each run in a forked child of its own.
#   perl drive.pl SCRIPT LIMIT DEPTH "t1 t2 ..." "prefix" ARGS...
# t1.. are the values offered for rand() without an argument; rand(n) offers 0.5,
# 1.5 .. n-0.5.  Draws beyond DEPTH take turns.  Writes a block per run.
use strict;
use warnings;
use Getopt::Long ();
our (@plan, @taken);
BEGIN {
    *CORE::GLOBAL::rand = sub (;$) {
        my ($max) = @_;
        my @menu = defined $max ? map { $_ + 0.5 } 0 .. $max - 1 : @main::menu;
        @menu = (0) if !@menu;
        my $i = scalar @main::taken;
        my $k = $i < @main::plan ? $main::plan[$i] : $i < $main::depth ? 0 : $i % @menu;
        push @main::taken, [$k, $i < $main::depth ? scalar @menu : 1, defined $max ? "w" : "k"];
        syswrite($main::trace, join(" ", @{$main::taken[-1]}) . "\n");
        die "too many draws\n" if $i > 200;
        return $menu[$k];
    };
}
our ($script, $limit, $depth, $menu, $prefix) = splice @ARGV, 0, 5;
our @menu = split ' ', $menu;
our $trace;
my @fixed = split ' ', $prefix;
@plan = @fixed;
my @args = @ARGV;
my $runs = 0;
while (1) {
    unlink "ref.out", "hyp.out";
    open($trace, '>', "trace") or die;
    my $pid = fork();
    if (!$pid) {
        open(STDOUT, '>', "said") or die;
        open(STDERR, '>', "err") or die;
        alarm 20;
        @ARGV = @args;
        package main;
        no strict;
        my $r = do $script;
        if (!defined $r && $@) { print STDERR $@; exit 9; }
        exit 0;
    }
    waitpid($pid, 0);
    my $st = $?;
    close $trace;
    my $read = sub { local $/; open(my $f, '<', $_[0]) or return "(none)"; my $x = <$f>; defined $x ? $x : "" };
    my @t = map { [split ' ', $_] } split /\n/, $read->("trace");
    print "RUN $st\n", "DRAWS ", join(" ", map { "$_->[2]$_->[0]" } @t), "\n";
    for my $f ("ref.out", "hyp.out", "said", "err") {
        my $x = $read->($f);
        print "$f ", length($x), "\n$x\n";
    }
    last if ++$runs >= $limit;
    # the next sequence
    while (@t > @fixed && $t[-1][0] + 1 >= $t[-1][1]) { pop @t }
    last if @t <= @fixed;
    $t[-1][0]++;
    @plan = map { $_->[0] } @t;
}
print "END $runs\n";
