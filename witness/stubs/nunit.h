// Stand-in for NUnit under C++/CLI: the interface its FakeIt integration uses.
#pragma once
#define gcnew new
struct String { String(const char *); };
namespace NUnit { namespace Framework {
    struct Assert {
        static void Fail(String *message);
        static void Inconclusive(String *message);
        static void Warn(String *message);
    };
}}
