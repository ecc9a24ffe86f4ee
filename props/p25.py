from .common import *
META = dict(
 title="The intrusive list stays well linked under every operation",
 statement="Inserting, removing, moving and destroying list links keeps neighbours linked to each other in both directions, keeps every other element in its order, and never leaves a link pointing at a removed or destroyed element. Removing an element that is in no list, or moving a link onto itself, changes nothing.",
 over=["histories", "inputs"],
 text="lists of any length, any position, any operation order",
 why="tests use short lists; a wrong pointer appears only for particular neighbourhoods (ends, adjacent elements, self)",
 files=["src/util/util_intrusive_list.hpp"],
 mechanism=[("link insertion and removal", "src/util/util_intrusive_list.hpp")],
 technique="local shape analysis by abstract interpretation of the compiler's IR on symbolic link neighbourhoods", note=NOTE)
EXPLANATION = ("Local shape analysis of util::IntrusiveList: every link operation is interpreted on symbolic links inside arbitrary "
               "surrounding lists (the neighbours are opaque objects), so the link invariant is shown for lists of any length.")
F = ["p25.cpp"]
def run(c):
    c.all(F, "util::IntrusiveList")
