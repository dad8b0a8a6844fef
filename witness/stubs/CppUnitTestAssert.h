// Stand-in for the Microsoft unit test framework: the interface its FakeIt integration uses.
#pragma once
#include <string>
namespace Microsoft { namespace VisualStudio { namespace CppUnitTestFramework {
    struct __LineInfo {
        __LineInfo(const wchar_t *file, const char *function, int line);
    };
    struct Assert {
        static void Fail(const wchar_t *message = nullptr, const __LineInfo *info = nullptr);
    };
    struct Logger {
        static void WriteMessage(const wchar_t *message);
        static void WriteMessage(const char *message);
    };
}}}
