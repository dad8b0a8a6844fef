// Stand-in for the mettle framework: the interface its FakeIt integration uses.
#pragma once
#include <stdexcept>
#include <string>
namespace mettle {
    class expectation_error : public std::runtime_error {
    public:
        expectation_error(const std::string &what);
        ~expectation_error() noexcept;
    };
}
