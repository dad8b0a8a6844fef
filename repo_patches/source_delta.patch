From 46b7eff30a5567248d7d978abb75c1b9b2f456a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:26 +0000
Subject: [PATCH 01/12] fix: mark unused table entries again on Reset

A zero-filled entry looked like the id of the destructor stub, so stubbing the
destructor after Reset called through an empty slot.
---
 include/mockutils/DynamicProxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index 0d06a71..f7cea28 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -93,7 +93,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
-- 
2.43.0


From b07f78e58a3aff623e2aa0aaf97bb44853454f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:26 +0000
Subject: [PATCH 02/12] fix: collect invocations only for complete matches

A pattern that matched its first sequences but not its last one left those
invocations in the matched list, so they were marked as verified.
---
 include/fakeit/MatchAnalysis.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fakeit/MatchAnalysis.hpp b/include/fakeit/MatchAnalysis.hpp
index 8cac066..21bc1c5 100644
--- a/include/fakeit/MatchAnalysis.hpp
+++ b/include/fakeit/MatchAnalysis.hpp
@@ -46,15 +46,18 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> currentMatch;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, currentMatch, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
             end = startSearchIndex;
+            // Only the invocations of a complete match count as matched.
+            matchedInvocations.insert(matchedInvocations.end(), currentMatch.begin(), currentMatch.end());
             return true;
         }
 
-- 
2.43.0


From 329e9c15416e1b32e90ef8f001a7c31edd645761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:26 +0000
Subject: [PATCH 03/12] fix: do not call an empty clause when a Finally was
 moved from

---
 include/mockutils/Finally.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mockutils/Finally.hpp b/include/mockutils/Finally.hpp
index cf227fb..f67498b 100644
--- a/include/mockutils/Finally.hpp
+++ b/include/mockutils/Finally.hpp
@@ -30,7 +30,9 @@ namespace fakeit {
         }
 
         ~Finally() {
-            _finallyClause();
+            if (_finallyClause) {
+                _finallyClause();
+            }
         }
     };
 }
-- 
2.43.0


From c6a07540e17be745cb8ffebea6b7e46235a31eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:26 +0000
Subject: [PATCH 04/12] fix: drop actions that are asked for zero times

0_Times(x) decremented below zero and repeated forever.
---
 include/fakeit/ActionSequence.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fakeit/ActionSequence.hpp b/include/fakeit/ActionSequence.hpp
index b1f6018..43f12e4 100644
--- a/include/fakeit/ActionSequence.hpp
+++ b/include/fakeit/ActionSequence.hpp
@@ -74,6 +74,10 @@ namespace fakeit {
 
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
+            if (action->isDone()) {
+                // Nothing to do, for example 0_Times(x).
+                return;
+            }
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
         }
 
-- 
2.43.0


From 57e2678da77ff874fd0b6750e5f3872ea832de94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:26 +0000
Subject: [PATCH 05/12] fix: use the active formatter in the Catch adapter

---
 config/catch/CatchFakeit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/catch/CatchFakeit.hpp b/config/catch/CatchFakeit.hpp
index 616a369..1261961 100644
--- a/config/catch/CatchFakeit.hpp
+++ b/config/catch/CatchFakeit.hpp
@@ -92,7 +92,7 @@ namespace fakeit {
 
         virtual ~CatchFakeit() = default;
 
-        CatchFakeit() : _formatter(), _catchAdapter(_formatter) {}
+        CatchFakeit() : _formatter(), _catchAdapter(*this) {}
 
         static CatchFakeit &getInstance() {
             static CatchFakeit instance;
-- 
2.43.0


From de042dd34c1c0e41ef0fa3836c691f0e1c0e237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:26 +0000
Subject: [PATCH 06/12] fix: allow a statement object to be used for several
 stubbings

The matcher and the recorded actions were handed over as raw pointers, so
stubbing twice with one statement object, or changing its matchers afterwards,
freed them twice.
---
 include/fakeit/MethodMockingContext.hpp | 23 +++++++++--------------
 include/fakeit/MockImpl.hpp             |  5 +++--
 include/fakeit/RecordedMethodBody.hpp   | 12 ++++++------
 3 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/include/fakeit/MethodMockingContext.hpp b/include/fakeit/MethodMockingContext.hpp
index bf1db0b..91ab002 100644
--- a/include/fakeit/MethodMockingContext.hpp
+++ b/include/fakeit/MethodMockingContext.hpp
@@ -57,8 +57,9 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -73,9 +74,8 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -88,16 +88,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-                    // no commit. delete the created objects.
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -134,7 +129,8 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
+                // The recorded actions belong to the stub now, start a new list for the next statement.
+                _recordedActionSequence = std::make_shared<ActionSequence<R, arglist...>>();
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -163,8 +159,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index c8d6e35..ad12557 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -140,8 +140,9 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
diff --git a/include/fakeit/RecordedMethodBody.hpp b/include/fakeit/RecordedMethodBody.hpp
index 201000c..c57719b 100644
--- a/include/fakeit/RecordedMethodBody.hpp
+++ b/include/fakeit/RecordedMethodBody.hpp
@@ -32,8 +32,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -63,8 +63,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -107,8 +107,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
-- 
2.43.0


From 0efb3946ff01321567e5f50b8fcb0e55e288d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:26 +0000
Subject: [PATCH 07/12] fix: let AtLeast(0) accept any number of invocations

The count is stored negated, so zero was read as Exactly(0).
---
 include/fakeit/SequenceVerificationProgress.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/fakeit/SequenceVerificationProgress.hpp b/include/fakeit/SequenceVerificationProgress.hpp
index 0c12d3a..966e6bd 100644
--- a/include/fakeit/SequenceVerificationProgress.hpp
+++ b/include/fakeit/SequenceVerificationProgress.hpp
@@ -112,6 +112,11 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                // -0 would mean Exactly(0).
+                _expectationPtr->expectAnything();
+                return Terminator(_expectationPtr);
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
-- 
2.43.0


From d7f59ce8b8aebe656e0e38cf35aedb6c8faf0b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:26 +0000
Subject: [PATCH 08/12] fix: keep the outcome of a verification for later
 conversions to bool

A second conversion of the same failed verification yielded true.
---
 include/fakeit/SequenceVerificationExpectation.hpp         | 6 +++++-
 include/fakeit/SequenceVerificationProgress.hpp            | 2 +-
 .../VerifyNoOtherInvocationsVerificationProgress.hpp       | 7 +++++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/fakeit/SequenceVerificationExpectation.hpp b/include/fakeit/SequenceVerificationExpectation.hpp
index 1b7abc2..0bc7a00 100644
--- a/include/fakeit/SequenceVerificationExpectation.hpp
+++ b/include/fakeit/SequenceVerificationExpectation.hpp
@@ -49,6 +49,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _hasFailed;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -60,7 +61,8 @@ namespace fakeit {
                 _expectedCount(-1), // AT_LEAST_ONCE
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _hasFailed(false) {
         }
 
 
@@ -126,6 +128,7 @@ namespace fakeit {
 
         void handleExactVerificationEvent(VerificationEventHandler &verificationErrorHandler,
                                           std::vector<Invocation *> actualSequence, int count) {
+            _hasFailed = true;
             SequenceVerificationEvent evt(VerificationType::Exact, _expectedPattern, actualSequence, _expectedCount,
                                           count);
             evt.setFileInfo(_file, _line, _testMethod);
@@ -134,6 +137,7 @@ namespace fakeit {
 
         void handleAtLeastVerificationEvent(VerificationEventHandler &verificationErrorHandler,
                                             std::vector<Invocation *> actualSequence, int count) {
+            _hasFailed = true;
             SequenceVerificationEvent evt(VerificationType::AtLeast, _expectedPattern, actualSequence, -_expectedCount,
                                           count);
             evt.setFileInfo(_file, _line, _testMethod);
diff --git a/include/fakeit/SequenceVerificationProgress.hpp b/include/fakeit/SequenceVerificationProgress.hpp
index 966e6bd..d704e92 100644
--- a/include/fakeit/SequenceVerificationProgress.hpp
+++ b/include/fakeit/SequenceVerificationProgress.hpp
@@ -43,7 +43,7 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return !_expectationPtr->_hasFailed;
                 }
                 catch (bool e) {
                     return e;
diff --git a/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp b/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
index d8a8014..280c83b 100644
--- a/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
+++ b/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
@@ -45,13 +45,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _hasFailed;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _hasFailed(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -68,6 +70,7 @@ namespace fakeit {
                 InvocationUtils::selectNonVerifiedInvocations(actualInvocations, nonVerifiedInvocations);
 
                 if (nonVerifiedInvocations.size() > 0) {
+                    _hasFailed = true;
                     std::vector<Invocation *> sortedNonVerifiedInvocations;
                     InvocationUtils::sortByInvocationOrder(nonVerifiedInvocations, sortedNonVerifiedInvocations);
 
@@ -99,7 +102,7 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return !_ptr->_hasFailed;
             }
             catch (bool e) {
                 return e;
-- 
2.43.0


From fa33ead18c4d38f4cff0db167e246d9bce5520e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:14 +0000
Subject: [PATCH 09/12] fix: reject out-of-range placeholders in ReturnAndSet
 for every language standard

---
 include/fakeit/StubbingProgress.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/fakeit/StubbingProgress.hpp b/include/fakeit/StubbingProgress.hpp
index a93252e..fc487de 100644
--- a/include/fakeit/StubbingProgress.hpp
+++ b/include/fakeit/StubbingProgress.hpp
@@ -382,13 +382,9 @@ namespace fakeit {
             template <typename ...T, int ...N>
             static void CheckPositions(const std::tuple<ArgValue<T, N>...> arg_vals)
             {
-#if FAKEIT_CPLUSPLUS >= 201402L && !defined(_WIN32)
-                static_assert(std::get<tuple_index>(arg_vals).pos <= max_index,
+                static_assert(std::tuple_element<tuple_index, std::tuple<ArgValue<T, N>...>>::type::pos <= max_index,
                     "Argument index out of range");
                 ArgValidator<max_index, tuple_index - 1>::CheckPositions(arg_vals);
-#else
-                (void)arg_vals; // to suppress unused variable warning in C++11
-#endif
             }
         };
 
-- 
2.43.0


From 7d693c01a4a3136389624fdef4be46edf9517d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:05 +0000
Subject: [PATCH 10/12] fix: report the position of failed verifications under
 Qt Test, MSTest and NUnit

---
 config/mstest/MsTestFakeit.hpp | 5 +++--
 config/nunit/NUnitFakeit.hpp   | 9 +++------
 config/qtest/QTestFakeit.hpp   | 4 ++--
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/config/mstest/MsTestFakeit.hpp b/config/mstest/MsTestFakeit.hpp
index 7b3851c..06bfd17 100644
--- a/config/mstest/MsTestFakeit.hpp
+++ b/config/mstest/MsTestFakeit.hpp
@@ -4,6 +4,7 @@
 
 #include "fakeit/DefaultFakeit.hpp"
 #include "fakeit/EventHandler.hpp"
+#include "mockutils/to_string.hpp"
 #include <CppUnitTestAssert.h>
 
 using namespace Microsoft::VisualStudio::CppUnitTestFramework;
@@ -26,7 +27,7 @@ namespace fakeit {
 
 		virtual void handle(const SequenceVerificationEvent& e) override
 		{
-			auto formattedMessage = _formatter.format(e);
+			auto formattedMessage = std::string(e.file()) + "(" + fakeit::to_string(e.line()) + "): " + _formatter.format(e);
 			std::wstring wFormattedMessage = to_wstring(formattedMessage);
 			//std::wstring wfile = to_wstring(e.file());
 			//__LineInfo lineInfo(wfile.c_str(), e.callingMethod().c_str(), e.line());
@@ -36,7 +37,7 @@ namespace fakeit {
 
 		virtual void handle(const NoMoreInvocationsVerificationEvent& e) override
 		{
-			auto formattedMessage = _formatter.format(e);
+			auto formattedMessage = std::string(e.file()) + "(" + fakeit::to_string(e.line()) + "): " + _formatter.format(e);
 			std::wstring wFormattedMessage = to_wstring(formattedMessage);
 			//std::wstring wfile = to_wstring(e.file());
 			//__LineInfo lineInfo(wfile.c_str(), e.callingMethod().c_str(), e.line());
diff --git a/config/nunit/NUnitFakeit.hpp b/config/nunit/NUnitFakeit.hpp
index 95fb001..a758628 100644
--- a/config/nunit/NUnitFakeit.hpp
+++ b/config/nunit/NUnitFakeit.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "fakeit/DefaultFakeit.hpp"
+#include "mockutils/to_string.hpp"
 
 namespace fakeit {
 
@@ -17,16 +18,12 @@ namespace fakeit {
 		}
 
 		virtual void handle(const SequenceVerificationEvent &evt) override {
-			std::string format(_formatter.format(evt));
-			//The GTest example I copied used evt.file(), evt.line(), and ::testing::TestPartResult::kFatalFailure
-			//I am not here for simplicity. 
+			std::string format(std::string(evt.file()) + "(" + fakeit::to_string(evt.line()) + "): " + _formatter.format(evt));
 			NUnit::Framework::Assert::Fail(gcnew String(format.c_str()));
 	        }
 
 		virtual void handle(const NoMoreInvocationsVerificationEvent &evt) override {
-			std::string format = _formatter.format(evt);
-			//The GTest example I copied used evt.file(), evt.line(), and ::testing::TestPartResult::kFatalFailure
-			//I am not here for simplicity. 
+			std::string format(std::string(evt.file()) + "(" + fakeit::to_string(evt.line()) + "): " + _formatter.format(evt));
 			NUnit::Framework::Assert::Fail(gcnew String(format.c_str()));
 	        }
 
diff --git a/config/qtest/QTestFakeit.hpp b/config/qtest/QTestFakeit.hpp
index 7d99ba9..84fa7b9 100644
--- a/config/qtest/QTestFakeit.hpp
+++ b/config/qtest/QTestFakeit.hpp
@@ -22,13 +22,13 @@ public:
     virtual void handle(const SequenceVerificationEvent& e) override
     {
         auto str = _formatter.format(e);
-        QFAIL(str.c_str());
+        QTest::qFail(str.c_str(), e.file(), e.line());
     }
 
     virtual void handle(const NoMoreInvocationsVerificationEvent& e) override
     {
         auto str = _formatter.format(e);
-        QFAIL(str.c_str());
+        QTest::qFail(str.c_str(), e.file(), e.line());
     }
 
 };
-- 
2.43.0


From 67c97442d3feb25efd9f6e0273ecafb1b36f07a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:28:14 +0000
Subject: [PATCH 11/12] fix: reject classes with virtual bases where the
 compiler shows the bases

---
 .../gcc/is_simple_inheritance_layout.hpp      | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/mockutils/gcc/is_simple_inheritance_layout.hpp b/include/mockutils/gcc/is_simple_inheritance_layout.hpp
index 7a97303..5f5decd 100644
--- a/include/mockutils/gcc/is_simple_inheritance_layout.hpp
+++ b/include/mockutils/gcc/is_simple_inheritance_layout.hpp
@@ -9,26 +9,38 @@
 
 #include <type_traits>
 #include <tr2/type_traits>
+#include <utility>
 
 namespace fakeit {
-    template<typename ... Type1>
+    // A pointer to a (visible) virtual base can't be cast back to the derived class.
+    template<typename Base, typename Derived, typename = void>
+    class is_virtual_base : public std::is_convertible<Derived *, Base *> {
+    };
+
+    template<typename Base, typename Derived>
+    class is_virtual_base<Base, Derived, decltype(static_cast<void>(static_cast<Derived *>(std::declval<Base *>())))>
+            : public std::false_type {
+    };
+
+    template<typename T, typename ... Type1>
     class has_one_base {
     };
 
-    template<typename Type1, typename Type2, typename ... types>
-    class has_one_base<std::tr2::__reflection_typelist<Type1, Type2, types...>> : public std::false_type {
+    template<typename T, typename Type1, typename Type2, typename ... types>
+    class has_one_base<T, std::tr2::__reflection_typelist<Type1, Type2, types...>> : public std::false_type {
     };
 
-    template<typename Type1>
-    class has_one_base<std::tr2::__reflection_typelist<Type1>>
-            : public has_one_base<typename std::tr2::direct_bases<Type1>::type> {
+    template<typename T, typename Type1>
+    class has_one_base<T, std::tr2::__reflection_typelist<Type1>>
+            : public std::conditional<is_virtual_base<Type1, T>::value, std::false_type,
+                    has_one_base<Type1, typename std::tr2::direct_bases<Type1>::type>>::type {
     };
 
-    template<>
-    class has_one_base<std::tr2::__reflection_typelist<>> : public std::true_type {
+    template<typename T>
+    class has_one_base<T, std::tr2::__reflection_typelist<>> : public std::true_type {
     };
 
     template<typename T>
-    class is_simple_inheritance_layout : public has_one_base<typename std::tr2::direct_bases<T>::type> {
+    class is_simple_inheritance_layout : public has_one_base<T, typename std::tr2::direct_bases<T>::type> {
     };
 }
-- 
2.43.0


From 7ee51d4ab0a781f96b272b06d18cfffcc16654e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:30:22 +0000
Subject: [PATCH 12/12] fix: reject unusable matchers for arguments other than
 the last

---
 include/fakeit/MatchersCollector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fakeit/MatchersCollector.hpp b/include/fakeit/MatchersCollector.hpp
index 8c7c25e..bb7eeea 100644
--- a/include/fakeit/MatchersCollector.hpp
+++ b/include/fakeit/MatchersCollector.hpp
@@ -74,11 +74,11 @@ namespace fakeit {
             _matchers.push_back(d);
         }
 
-        template<typename Head, typename ...Tail>
-        void CollectMatchers(Head &&head, Tail &&... tail) {
+        template<typename Head, typename Second, typename ...Tail>
+        void CollectMatchers(Head &&head, Second &&second, Tail &&... tail) {
             CollectMatchers(std::forward<Head>(head));
             MatchersCollector<index + 1, arglist...> c(_matchers);
-            c.CollectMatchers(std::forward<Tail>(tail)...);
+            c.CollectMatchers(std::forward<Second>(second), std::forward<Tail>(tail)...);
         }
 
     };
-- 
2.43.0

