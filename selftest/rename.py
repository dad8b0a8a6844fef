#!/usr/bin/env python3
"""Runs every check on copies of the repository in which many names are replaced.

usage: rename.py [REPO]     each batch of names must leave every check quiet
"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'rules'))
import names  # noqa: E402

BATCHES = [
    'handleExactVerificationEvent handleAtLeastVerificationEvent isAtLeastVerification isExactVerification atLeastLimitNotReached exactLimitNotMatched '
    'toBool bind bindDtor isBinded getFake asFakeObject getMockImpl createFakeInstance unmocked unmockedDtor isOwner initDataMembersIfOwner '
    'stubMethodIfNotStubbed stubDtorIfNotStubbed createRecordedMethodBody createRecordedDtorBody getRecordedMethodBody methodProxy methodProxyX applyTuple '
    'buildVTArray collectSequences findNextMatch isMatch collectInvocationSources fireEvent formatInvocationList createRaiiMethodSwapper getOriginalVT '
    'getOffset VerifyExpectation verifyInvocations',
    'RecordedMethodBody MatchAnalysis InvocationHandlers Finally TupleDispatcher InvocationUtils MethodProxyCreator DynamicProxy FakeObject ActionSequence '
    'MatchedInvocationHandler NoMoreRecordedAction UserDefinedInvocationMatcher RepeatForever SequenceVerificationExpectation VTUtils MatchersCollector '
    'ParamWalker UniqueMethodMockingContextImpl UnverifiedInvocationsSource InvocationsSourceProxy collectActualInvocations selectNonVerifiedInvocations '
    'sortByInvocationOrder actualArguments _isVerified _actualInvocations StubbingChange',
]


def one(repo, prop, ev):
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'rules', 'run.py'), prop], cwd=VERIF, env=dict(os.environ, FK_REPO=repo, FK_EVIDENCE=ev), capture_output=True, text=True, stdin=subprocess.DEVNULL)
    return prop, r.returncode, r.stdout.strip().split('\n')[0]


def main():
    src = sys.argv[1] if len(sys.argv) > 1 else '/repo'
    props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, 'rules', 'props')) if f.startswith('p') and f.endswith('.py'))
    bad = 0
    for k, batch in enumerate(BATCHES):
        with tempfile.TemporaryDirectory(prefix='fkself-') as d:
            repo = os.path.join(d, 'repo')
            for x in names.DIRS:
                shutil.copytree(os.path.join(src, x), os.path.join(repo, x))
            to = {n: 'renamed' + n.strip('_').capitalize() for n in batch.split()}
            for n, t in list(names.sources(repo)):
                with open(os.path.join(repo, n), 'w', encoding='utf-8', errors='surrogateescape', newline='') as f:
                    f.write(names.TOKEN.sub(lambda m: to.get(m.group(0), m.group(0)), t))
            with cf.ThreadPoolExecutor(8) as ex:
                for p, c, line in ex.map(lambda p: one(repo, p, os.path.join(d, 'ev-' + p)), props):
                    if c:
                        bad += 1
                        print('batch %d: %s exit %d: %s' % (k, p, c, line))
    print('%d batches, %d checks not quiet' % (len(BATCHES), bad))
    sys.exit(bad != 0)


if __name__ == '__main__':
    main()
