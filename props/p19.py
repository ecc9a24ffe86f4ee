from .common import *
META = dict(
 title="RTP parsing accepts exactly well-formed packets and reports them faithfully",
 statement="A received datagram is accepted exactly when it is a version 2 RTP packet whose fixed header, contributing sources, extension and padding fit and whose payload type is registered. Every reported header field, contributing source, extension and payload interval is exactly the bytes RFC 3550 assigns, payload excludes padding, and the interval lies inside the datagram. Each parse counts exactly one success, or one error together with its one cause.",
 text="all datagrams of any length and content, all payload maps, all prior counter values",
 why="tests parse a few captured packets; truncation at each field, CSRC count, extension length and padding interact over all lengths",
 files=["src/rtp/rtp_packet.cpp", "src/rtp/rtp_packet.hpp", "src/rtp/rtp_header.hpp", "src/util/util_binary_view.hpp"],
 mechanism=[("length checks before each read", "src/rtp/rtp_packet.cpp"), ("payload interval computation", "src/rtp/rtp_packet.cpp"), ("bounded reads", "src/util/util_binary_view.hpp")],
 technique=TECH, note=NOTE)
EXPLANATION = ("The parser is interpreted once for each of the 16 CSRC counts with every other bit of the packet, its length, the "
               "payload map and the counters symbolic; each path's result is compared with the RFC 3550 layout by value provenance and linear length facts.")
F = ["p19.cpp"]
def run(c):
    c.sizes = {"freewebrtc::rtp::SSRC": 4}
    for k in range(16): c.harness(f"fw_e_rtp_{k}", "rtp::Packet::parse", F)
