// Stand-in for the CUTE framework: the interface its FakeIt integration uses.
#pragma once
#include <string>
namespace cute {
    struct test_failure {
        std::string reason, filename;
        int lineno;
        test_failure(const std::string &r, const char *f, int line);
        ~test_failure();
        const char *what() const;
    };
}
