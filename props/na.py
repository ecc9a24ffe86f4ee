"""properties this family does not decide here"""
PROPS = [
 {"id": "N01", "title": "A STUN server or client keeps up with traffic in bounded time and memory",
  "statement": "For any sequence of received packets the time and memory spent per packet stay bounded, and the state kept for finished transactions does not grow with the number of packets seen.",
  "quantifier": {"over": ["histories"], "text": "all packet histories of any length"},
  "why_tests_cant": "tests drive a handful of packets and measure neither time nor memory",
  "anchors": {"files": ["src/stun/stun_client_udp.cpp", "src/stun/stun_server_stateless.cpp"], "mechanism": [{"name": "transaction cleanup", "where": "src/stun/stun_client_udp.cpp"}]}},
 {"id": "N02", "title": "Node binding end-to-end: JavaScript callers see the library's values and errors",
  "statement": "Every value passed through the Node.js binding arrives unchanged on the other side, and every native error surfaces as a JavaScript exception carrying its category and code.",
  "quantifier": {"over": ["programs", "inputs"], "text": "all JavaScript programs using the binding"},
  "why_tests_cant": "the JavaScript tests are not even runnable here; they sample a few calls",
  "anchors": {"files": ["node/node_stun/node_stun_message.cpp", "node/node_stun/node_stun_error.cpp"], "mechanism": [{"name": "napi wrappers", "where": "node/node_stun"}]}},
]
REASONS = [
 ("N01", "bounds on running time and memory over histories are run-time quantities; the structural clause (a finished transaction is erased from every container) is decided under P14"),
 ("N02", "the binding is compiled against craftnapi and node headers that are not present in this sandbox, so there is no resolved program to analyse"),
]
