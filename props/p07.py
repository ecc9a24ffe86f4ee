from .common import *
META = dict(
 title="STUN message type and header encode exactly per RFC 8489",
 statement="For every 16-bit type value with clear top bits, class and method are exactly the bits the RFC assigns and together reassemble the value. Every built header carries the big-endian type and length, then the magic cookie and a 96-bit transaction id, or a 128-bit id in place of both.",
 text="all 2^14 type values, all message lengths, all transaction ids",
 why="tests encode two or three type values and one transaction id; a wrong mask shows only for particular bit patterns",
 files=["src/stun/stun_class.hpp", "src/stun/stun_method.hpp", "src/stun/stun_header.cpp"],
 mechanism=[("class bit packing", "src/stun/stun_class.hpp"), ("method bit packing", "src/stun/stun_method.hpp"), ("header serialisation", "src/stun/stun_header.cpp")],
 technique=TECH, note=NOTE)
EXPLANATION = ("Bit-provenance abstract interpretation of Class/Method packing and of Header::build for every 16-bit "
               "type value, every message length and every transaction id; each rule is discharged on every abstract path.")
F = ["p07.cpp"]
def run(c):
    c.harness("fw_e_mt_class", "stun::Class", F)
    c.harness("fw_e_mt_class_const", "stun::Class", F)
    c.harness("fw_e_mt_method", "stun::Method", F)
    c.harness("fw_e_mt_method_eq", "stun::Method", F)
    c.harness("fw_e_mt_method_inj", "stun::Method", F, allow_empty=True)
    c.harness("fw_e_mt_binding", "stun::Method::binding", F)
    c.harness("fw_e_mt_header", "stun::Header::build", F, rules=["bytes 4-7 are the magic cookie for a 96-bit transaction id", "a 128-bit transaction id replaces the cookie"])
