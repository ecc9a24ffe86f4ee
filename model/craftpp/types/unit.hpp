// Stand-in for the craftpp dependency (missing offline). See DESIGN.md.
#pragma once
namespace craftpp::types {
struct Unit {
    static Unit create() noexcept { return Unit{}; }
    bool operator==(const Unit&) const noexcept = default;
};
}
