import os,sys,json,subprocess,shutil,difflib
BUGS={}
def bug(id,prop,needs,breaks,edits,demo,flags="-O1 -g0"):
    BUGS[id]=dict(prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,flags=flags)
L="src/liblevenshtein/"
PRE='''#include <algorithm>
#include <cstdio>
#include <cstdint>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "liblevenshtein/collection/dawg.h"
#include "liblevenshtein/collection/sorted_dawg.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"
#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/serialization/serializer.h"
#include "liblevenshtein/transducer/transducer.h"
#include "liblevenshtein/transducer/state.h"
#include "liblevenshtein/transducer/state_iterator.h"
#include "liblevenshtein/transducer/comparator.h"
#include "liblevenshtein/transducer/merge.h"
#include "liblevenshtein/transducer/distance.h"
#include "liblevenshtein/transducer/subsumes.h"
#include "liblevenshtein/transducer/unsubsume.h"
#include "liblevenshtein/transducer/position_transition.h"
#include "liblevenshtein/transducer/state_transition.h"
#include "liblevenshtein/collection/transition.h"
#include "liblevenshtein/collection/prefix.h"
#include "liblevenshtein/distance/symmetric_pair.h"
namespace ll = liblevenshtein;
namespace lld = liblevenshtein::distance;
using S = std::string;
using V = std::vector<S>;
using Res = std::map<S, size_t>;
static int bad = 0;
#define CHECK(x) do { if (!(x)) { bad = 1; std::printf("line %d: %s does not hold\\n", __LINE__, #x); } } while (0)
static ll::Dawg *build(V v) { return ll::sorted_dawg(v.begin(), v.end()); }
template <ll::Algorithm A> Res query(ll::Dawg *d, const S &q, size_t n) {
  ll::Transducer<A, ll::Candidate> t(d->root());
  Res r;
  for (const ll::Candidate &c : t(q, n)) r[c.first] = c.second;
  return r;
}
'''
exec(open('/tmp/seeds/bugs.py').read())
def pre(demo):
    if 'll::distance<' in demo:
        return '\n'.join(l for l in PRE.split('\n') if 'distance/' not in l and 'lld' not in l)
    return PRE.replace('#include "liblevenshtein/transducer/distance.h"\n','')
def make(id):
    b=BUGS[id]; d='/verif/seeded/'+id
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    new={}
    for f,o,n in b['edits']:
        t=new.get(f) or open('/repo/'+f).read()
        assert t.count(o)>=1,(id,f,o)
        assert t.count(o)==1,(id,f,'ambiguous',o)
        new[f]=t.replace(o,n)
    out=''
    for f,t in new.items():
        a=open('/repo/'+f).read().splitlines(1); c=t.splitlines(1)
        out+='diff --git a/%s b/%s\n'%(f,f)+''.join(difflib.unified_diff(a,c,'a/'+f,'b/'+f))
    open(d+'/patch.diff','w').write(out)
    subprocess.run(['git','-C','/repo','apply','--check',d+'/patch.diff'],check=True)
    open(d+'/demo.cpp','w').write(pre(b['demo'])+b['demo'])
    open(d+'/demo.sh','w').write(open('/verif/tools/demo-base.sh').read().replace('@FLAGS@',b['flags']))
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
for i in (sys.argv[1:] or BUGS): make(i)
print(' '.join(sys.argv[1:] or BUGS))
