"""C16: may instances be moved, and only moved?  (a program of its own: the monitor cannot be built if they may not)"""
import os
SRC = r'''#include "pandaresampler.hh"
#include <type_traits>
#include <cstdio>
using PandaResampler::Resampler2;
int main()
{
  printf ("%d %d %d %d\n", std::is_move_constructible<Resampler2>::value, std::is_move_assignable<Resampler2>::value,
          std::is_copy_constructible<Resampler2>::value, std::is_copy_assignable<Resampler2>::value);
}
'''
NAMES = ("move constructed", "move assigned", "copied", "copied by assignment")
def run(R, cid, tier, seed, res, tmpdir):
    src = os.path.join(tmpdir, "movable.cc"); exe = os.path.join(tmpdir, "movable")
    open(src, "w").write(SRC)
    rc = R.subprocess.run("g++ -std=c++11 -w -I%s %s -o %s" % (R.INC, src, exe), shell=True, stdout=R.subprocess.PIPE, stderr=R.subprocess.STDOUT, text=True)
    if rc.returncode: raise R.CheckError("the public header cannot be built: " + rc.stdout[-600:])
    st, so, se = R.run_program(exe, [], None, 60)
    got = so.split()
    if st != 0 or len(got) != 4: raise R.CheckError("movable: status %s" % st)
    for i, (g, want) in enumerate(zip(got, "1100")):
        res.evals += 1; res.hashes.add(hash(("movable", i)) & (2**64 - 1))
        if g != want: res.viol.append({"key": "movable:%d" % i, "index": -1, "message": "an instance %s be %s" % ("cannot" if want == "1" else "can", NAMES[i]), "job": "movable", "shard": 0})
