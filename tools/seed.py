#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a spec in tools/seeds/<id>.py: FILE/OLD/NEW edits (EDITS), DEMO (C main), NP, SAN, META."""
import os, sys, subprocess, json, shutil, tempfile, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r'''
#include <stdio.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <float.h>
#include <math.h>
#include <assert.h>
#include "c99.h"
#include "name.h"
#include "fail.h"
#include "types.h"
#include "mem.h"
#include "gs_defs.h"
#include "comm.h"
#include "gs.h"
#include "crystal.h"
#include "sort.h"
#include "sarray_sort.h"
#include "sarray_transfer.h"
#include "tensor.h"
#include "poly.h"
#include "lob_bnd.h"
#include "obbox.h"
#include "findpts_el.h"
#include "findpts_local.h"
#include "findpts.h"
#undef NDEBUG
#define CHECK(c) do { if(!(c)) { printf("demo: check failed, line %d: %s\n",__LINE__,#c); fflush(stdout); MPI_Abort(MPI_COMM_WORLD,1); } } while(0)
static struct comm C; static int ID,NP;
static void demo(void);
int main(int argc,char**argv){ MPI_Init(&argc,&argv); comm_init(&C,MPI_COMM_WORLD); ID=C.id; NP=C.np; demo(); comm_free(&C); MPI_Finalize(); return 0; }
'''
SERPRE = r'''#define CHECK(c) do { if(!(c)) { printf("demo: check failed, line %d: %s\n",__LINE__,#c); fflush(stdout); exit(1); } } while(0)
static struct comm C; static int ID,NP;
static void demo(void);
int main(void){ comm_init(&C,0); ID=C.id; NP=C.np; demo(); comm_free(&C); return 0; }
'''
SH = r'''#!/bin/bash
# run with cwd = the gslib tree: builds the library from src/ and the demonstration beside this script
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$W"' EXIT
export TMPDIR=$W OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none ASAN_OPTIONS=detect_leaks=0
FL="-DGSLIB_USE_MPI -DGSLIB_UNDERSCORE -DGSLIB_PREFIX=gslib_ -DGSLIB_FPREFIX=fgslib_ -DGSLIB_USE_GLOBAL_LONG_LONG -DGSLIB_USE_NAIVE_BLAS -DGSLIB_USE_NBC @CF@"
i=0; objs=
for f in src/*.c "$D/demo.c"; do
  case $f in *gen_poly_imp.c) continue;; esac
  i=$((i+1)); objs="$objs $W/o$i.o"
  mpicc.openmpi -g -O1 -w @SAN@ $FL -Isrc -c "$f" -o "$W/o$i.o" || touch "$W/bad" &
done; wait
[ -e "$W/bad" ] && { echo "demo: does not build"; exit 3; }
mpicc.openmpi @SAN@ -o "$W/demo" $objs -lm || exit 3
for np in @NP@; do
  timeout -k 5 60 mpiexec.openmpi -np $np "$W/demo" >"$W/out" 2>&1 </dev/null || { echo "demo: fails with $np processes"; grep -m 5 -a 'demo:\|ERROR\|runtime error' "$W/out"; exit 1; }
done
echo "demo: ok"; exit 0
'''
def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    id = os.path.basename(spec)[:-3]
    d = os.path.join(HERE, 'seeded', id); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        for f, old, new in ns['EDITS']:
            p = w + '/r/' + f; s = open(p).read()
            assert s.count(old) == ns.get('COUNT', 1), (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
        open(d + '/patch.diff', 'w').write(diff)
        ser = ns.get('SER')
        open(d + '/demo.c', 'w').write((PRE if not ser else PRE[:PRE.index('#define CHECK')] + SERPRE) + ns['DEMO'])
        sh = SH.replace('@NP@', str(ns.get('NP', '2'))).replace('@SAN@', '-fsanitize=address' if ns.get('SAN') else '').replace('@CF@', ns.get('CF', ''))
        if ser: sh = sh.replace('mpicc.openmpi', 'gcc').replace('-DGSLIB_USE_MPI ', '').replace('mpiexec.openmpi -np $np ', '')
        open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)
        json.dump(ns['META'], open(d + '/meta.json', 'w'), indent=1)
        # quick confirmation: demo on clean and patched tree
        a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=w + '/r', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(id, 'clean', a.returncode, a.stdout.strip()[-200:], '| patched', b.returncode, b.stdout.strip()[-300:])
        if '--check' in sys.argv:
            e = dict(os.environ, VERIF_REPO=w + '/r')
            c = subprocess.run(['python3', os.path.join(HERE, 'run.py'), ns['META']['property'], 'quick'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print('   check', c.returncode, [l for l in c.stdout.splitlines() if 'VIOL' in l or 'unconf' in l][:2], c.stdout.strip().splitlines()[-1][:200])
    finally:
        shutil.rmtree(w, ignore_errors=True)
for a in sys.argv[1:]:
    if a.startswith('--'): continue
    try: make(a)
    except Exception as e: print(a, 'ERROR', repr(e))
