// message type field: class and method bit packing, header serialisation
#include "fwentry.hpp"
#include "stun/stun_class.hpp"
#include "stun/stun_method.hpp"
#include "stun/stun_header.hpp"
using namespace freewebrtc;
using namespace freewebrtc::stun;

FW_ENTRY void fw_e_mt_class(uint16_t v) {
    const Class c = Class::from_msg_type(v);
    const unsigned bits = ((v >> 4) & 1) | ((v >> 7) & 2);
    fw_prove("class is C1C0 of the type field: 00 request, 01 indication, 10 success, 11 error",
             c.value() == (bits == 0 ? Class::REQUEST : bits == 1 ? Class::INDICATION : bits == 2 ? Class::SUCCESS_RESPONSE : Class::ERROR_RESPONSE));
    fw_prove("class serialises to exactly its two bits", c.to_msg_type() == (v & 0x0110));
    fw_prove("class equality is equality of the class bits",
             (c == Class::request()) == (bits == 0) && (c == Class::indication()) == (bits == 1)
             && (c == Class::success_response()) == (bits == 2) && (c == Class::error_response()) == (bits == 3));
}
FW_ENTRY void fw_e_mt_class_const() {
    fw_prove("class constants serialise to their RFC code points",
             Class::request().to_msg_type() == 0x0000 && Class::indication().to_msg_type() == 0x0010
             && Class::success_response().to_msg_type() == 0x0100 && Class::error_response().to_msg_type() == 0x0110);
}
FW_ENTRY void fw_e_mt_method(uint16_t v) {
    fw_assume((v & 0xC000) == 0);
    fw_prove("method serialises to exactly its twelve bits", Method::from_msg_type(v).to_msg_type() == (v & 0x3EEF));
    fw_prove("class and method reassemble the type field",
             (Class::from_msg_type(v).to_msg_type() | Method::from_msg_type(v).to_msg_type()) == v);
}
FW_ENTRY void fw_e_mt_method_eq(uint16_t v) {
    fw_assume((v & 0xC000) == 0);
    fw_prove("the Binding method is exactly code point 1", (Method::from_msg_type(v) == Method::binding()) == ((v & 0x3EEF) == 1));
    fw_prove("method inequality is the negation of equality", (Method::from_msg_type(v) != Method::binding()) == !(Method::from_msg_type(v) == Method::binding()));
}
FW_ENTRY void fw_e_mt_method_inj(uint16_t v, uint16_t w) {
    fw_assume((v & 0xC000) == 0); fw_assume((w & 0xC000) == 0);
    if ((v & 0xFEEF) == (w & 0xFEEF)) fw_prove("method ignores the class bits", Method::from_msg_type(v) == Method::from_msg_type(w));
    else if (Method::from_msg_type(v) == Method::from_msg_type(w))
        fw_prove("methods with different bits differ", false);
}
FW_ENTRY void fw_e_mt_binding() { fw_prove("Binding serialises to 0x0001", Method::binding().to_msg_type() == 0x0001); }
FW_ENTRY void fw_e_mt_header(const Header& h, size_t len) {
    const auto tid = h.transaction_id.view();
    const util::ByteVec b = h.build(len);
    const uint8_t* p = b.data();
    const uint16_t type = h.cls.to_msg_type() | h.method.to_msg_type();
    fw_prove("bytes 0-1 are the big-endian message type", p[0] == (uint8_t)(type >> 8) && p[1] == (uint8_t)type);
    fw_prove("bytes 2-3 are the big-endian length", p[2] == (uint8_t)(len >> 8) && p[3] == (uint8_t)len);
    fw_assume(tid.size() >= 12);
    fw_assume(tid.size() <= 64);
    const uint8_t* t = tid.data();
    if (tid.size() == 12) {
        fw_prove("bytes 4-7 are the magic cookie for a 96-bit transaction id", p[4] == 0x21 && p[5] == 0x12 && p[6] == 0xA4 && p[7] == 0x42);
        for (int i = 0; i < 12; ++i) fw_prove("the 96-bit transaction id follows the cookie", p[8 + i] == t[i]);
        fw_prove("the header is 20 bytes", b.size() == 20);
    }
    if (tid.size() == 16) {
        for (int i = 0; i < 16; ++i) fw_prove("a 128-bit transaction id replaces the cookie", p[4 + i] == t[i]);
        fw_prove("the header is 20 bytes", b.size() == 20);
    }
}
