from .common import *
META = dict(
 title="Clock arithmetic: advancing, comparing and subtracting time points agree",
 statement="Advancing a time point by a duration of any unit, positive or negative, makes its difference from the original exactly that many microseconds, and points compare as before, after or equal by the sign of their difference even when the counter wraps around. The consuming form of advance moves by the whole microseconds of the duration and leaves exactly the remainder in it. A clock converted from one of the standard library shows the whole microseconds of its time at every reading, losing nothing between readings and never going back.",
 text="all 64-bit time points, all durations of every supported unit, negative ones included",
 why="tests use a few positive durations; sign, truncation and wrap-around of the unit conversion quantify over all values",
 files=["src/clock/clock_timepoint.hpp", "src/clock/clock_std.hpp"],
 mechanism=[("advance / advance_from unit conversion", "src/clock/clock_timepoint.hpp"), ("wrap-around comparison", "src/clock/clock_timepoint.hpp"), ("remainder kept between readings", "src/clock/clock_std.hpp")],
 technique=TECH, note=NOTE)
EXPLANATION = ("Modular linear-form abstract interpretation of Timepoint for every 64-bit time value and duration: "
               "difference/advance agreement, total order within half the range, unit conversion, remainder conservation; ChronoClockConverter over a stand-in clock whose readings are any non-decreasing times.")
F = ["p24.cpp"]
def run(c):
    c.statics = True
    c.all(F, 'clock::Timepoint, ChronoClockConverter')
