From 99662d967c2e4238e86eb5fbe12861d8a4e47489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 01/28] fix: give result files their final name only when they
 are complete

polya.out.*, enum.in, enum.out and POSCAR files were written in place, so a
run that was killed or hit a write error left a partial file behind that later
stages accepted as the whole result.
---
 phenum/enumeration.py |   8 ++--
 phenum/io_utils.py    | 106 ++++++++++++++++++++++++++++++++++++++++--
 phenum/structures.py  |   3 +-
 3 files changed, 108 insertions(+), 9 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 4b73320..e36c795 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -59,7 +59,7 @@ def _polya_out(args):
     from phenum.HNFs import get_HNFs
     from phenum.grouptheory import get_sym_group
     from phenum.symmetry import get_concs_for_size
-    from phenum.io_utils import read_lattice
+    from phenum.io_utils import read_lattice, AtomicFile
     import phenum.phonons as pb
     from phenum.polyaburnside import polya
     params = read_lattice(args["lattice"])
@@ -67,7 +67,7 @@ def _polya_out(args):
     for s in range(params["sizes"][0], params["sizes"][1]+1):
         # get HNFs
         hnfs = get_HNFs(s,params["lat_vecs"],params["basis_vecs"],3)
-        out = open(args["outfile"]+"."+str(s), 'w+')
+        out = AtomicFile(args["outfile"]+"."+str(s))
         # find the concentrations available for the desired cell sizes.
         c_list = get_concs_for_size(s, params["nspecies"], params["is_crestricted"],
                                    len(params["basis_vecs"]), params["concs"])
@@ -163,7 +163,6 @@ def _enum_out(args):
         _enum_in(temp_args)
             
     systems = io.read_enum(args["input"])
-    io.write_enum(params, outfile=args["outfile"])    
 
     count_t = 1
     count_s = 0
@@ -174,7 +173,8 @@ def _enum_out(args):
         l = [int(i) for i in l]
         return (''.join(["{{{0:d}: >{1:d}d}}".format(i, n) for i in range(len(l))])).format(*l)
     
-    with open(args["outfile"], 'a') as f:
+    with io.AtomicFile(args["outfile"]) as f:
+        io.write_enum(params, outfile=f)
         enumlist = []    
         for hnf, conc, num_wanted in systems:
             if verbosity is not None and verbosity >= 1: #pragma: no cover
diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 0629068..b25aa9e 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -1,4 +1,98 @@
 """Methods for reading and writing enumeration and polya-counting results."""
+import os
+
+class AtomicFile(object):
+    """A text file opened for writing that appears under its final name only
+    once it is complete. Everything is written to a scratch file in the same
+    directory, which replaces the target when the file is closed; if the run
+    fails or is interrupted before that, whatever was stored under the final
+    name is left as it was.
+
+    Args:
+        filename (str): The name of the file to write.
+    """
+    def __init__(self, filename):
+        from uuid import uuid4
+        self._target = os.path.realpath(filename)
+        if os.path.exists(self._target) and not os.path.isfile(self._target):
+            # Devices and pipes have to be written to directly.
+            self._scratch = None
+            self._file = open(self._target, 'w')
+        else:
+            folder, name = os.path.split(self._target)
+            self._scratch = os.path.join(folder, ".{0}.{1}.tmp".format(name, uuid4().hex))
+            self._file = open(self._scratch, 'w')
+
+    def write(self, text):
+        """Writes the text to the file.
+
+        Args:
+            text (str): The text to be written.
+        """
+        self._file.write(text)
+
+    def close(self):
+        """Stores the contents safely and gives the file its final name."""
+        if self._file.closed:
+            return
+        if self._scratch is None:
+            self._file.close()
+            return
+        try:
+            self._file.flush()
+            os.fsync(self._file.fileno())
+            self._file.close()
+            getattr(os, "replace", os.rename)(self._scratch, self._target)
+        except BaseException:
+            self.discard()
+            raise
+        self._scratch = None
+
+    def discard(self):
+        """Throws away what was written, the target is left untouched."""
+        scratch, self._scratch = self._scratch, None
+        try:
+            self._file.close()
+        except (IOError, OSError):
+            pass
+        if scratch is not None:
+            try:
+                os.remove(scratch)
+            except OSError:
+                pass
+
+    def __enter__(self):
+        return self
+
+    def __exit__(self, exc_type, exc_value, traceback):
+        if exc_type is None:
+            self.close()
+        else:
+            self.discard()
+
+    def __del__(self):
+        if getattr(self, "_scratch", None) is not None:
+            self.discard()
+
+def file_exists(filename):
+    """Determines if a file is present. Unlike os.path.isfile problems with
+    accessing the file are raised instead of being taken for its absence.
+
+    Args:
+        filename (str): The name of the file.
+
+    Returns:
+        True if the file exists.
+    """
+    from errno import ENOENT, ENOTDIR
+    from stat import S_ISDIR
+    try:
+        return not S_ISDIR(os.stat(filename).st_mode)
+    except (IOError, OSError) as error:
+        if error.errno in (ENOENT, ENOTDIR):
+            return False
+        raise
+
 def read_group(fname):
     """Reads the symmetry group in from the 'rot_perms' styled group
     output by enum.x.
@@ -103,7 +197,8 @@ def write_enum(params, outfile="enum.out"):
     using the enumeration parameters gleaned from a 'lattice.in' styled file.
     Args:
         params (dict): values returned from method:read_lattice().
-        outfile (str, optional): path to desired output file. Default is 'enum.out'.
+        outfile (str, optional): path to desired output file, or a file that is open for
+          writing. Default is 'enum.out'.
     """
     from datetime import datetime
     lines = []
@@ -125,8 +220,11 @@ def write_enum(params, outfile="enum.out"):
                   "directions",
                   ""])
         
-    with open(outfile, 'w') as f:
-        f.write('\n'.join(lines))
+    if hasattr(outfile, "write"):
+        outfile.write('\n'.join(lines))
+    else:
+        with AtomicFile(outfile) as f:
+            f.write('\n'.join(lines))
 
 def write_struct_enum(params):
     """Writes a 'struct_enum.in' file for the executable enum.x.
@@ -367,7 +465,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     for arrow in arrows:
         directions.append(array(arrow_directions[int(arrow)]))
     slv = space_data["sLV"]
-    with open(filename,"w+") as poscar:
+    with AtomicFile(filename) as poscar:
         poscar.write(title)
         poscar.write("{0:.2f}\n".format(lattice_parameter))
         for i in range(3):
diff --git a/phenum/structures.py b/phenum/structures.py
index 742e44a..45ad87a 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -369,7 +369,8 @@ def _print_distribution(distr, distribution, filename=None, header=True, append=
     if filename is not None:
         #We don't worry about ordering it, just write them to file in whatever
         #order the keys are in.
-        with open(filename, 'w' if not append else 'a') as f:
+        from .io_utils import AtomicFile
+        with (AtomicFile(filename) if not append else open(filename, 'a')) as f:
             if header:
                 if distribution == "all":
                     f.write("# {0: <28}  {1: <10}  {2}\n".format("HNF", "Conc.", "Number"))
-- 
2.43.0


From d24c8a0d90696da6732c73aef0af207ab42275f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 02/28] fix: complete and validate the set of polya files a
 distribution is built on

One present polya file used to be taken for all of them, so after a killed run
the other cell sizes were silently left out. The sizes were also picked up from
files that only look similar (polya.out.2~, polya.out.bak.3) and in the order
of the directory listing, which made seeded results irreproducible.
---
 phenum/enumeration.py | 40 ++++++++++++++++++++++++++++------------
 phenum/structures.py  |  8 ++++++--
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index e36c795..cd521b1 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -25,13 +25,13 @@ def _enum_in(args):
     """
 
     from phenum.structures import make_enum_in
-    from glob import glob
     from copy import deepcopy
 
-    if not len(glob(args["input"]+".*")) >= 1:
+    missing = _missing_polya(args, args["input"])
+    if len(missing) >= 1:
         temp_args = deepcopy(args)
         temp_args["outfile"] = args["input"]
-        _polya_out(temp_args)
+        _polya_out(temp_args, only=missing)
     
     distribution = args["distribution"][0].lower()
     if args["sizes"]:
@@ -49,12 +49,33 @@ def _enum_in(args):
                      save= True if args["savedist"] else False,
                      seed=args["seed"], restrict=args["filter"])
 
-def _polya_out(args):
+def _missing_polya(args, infile):
+    """Finds the cell sizes for which there is no 'polya.out' style file yet.
+
+    Args:
+        args (dict): The command line inputs.
+        infile (str): The name of the 'polya.out' style files.
+
+    Returns:
+        missing (list): The cell sizes that have to be generated.
+    """
+    from phenum.io_utils import read_lattice, file_exists
+
+    if not file_exists(args["lattice"]):
+        return []
+    wanted = read_lattice(args["lattice"])["sizes"]
+    wanted = range(wanted[0], wanted[1]+1)
+    if args["sizes"]:
+        wanted = [s for s in wanted if s in range(*args["sizes"])]
+    return [s for s in wanted if not file_exists(infile+"."+str(s))]
+
+def _polya_out(args, only=None):
     """Generates the 'polya.out' files for the cell sizes specified in 'lattice.in'
     (or other specified input file).
 
     Args:
         args (dict): The command line inputs.
+        only (list, optional): The cell sizes to do, by default all of them.
     """
     from phenum.HNFs import get_HNFs
     from phenum.grouptheory import get_sym_group
@@ -65,6 +86,8 @@ def _polya_out(args):
     params = read_lattice(args["lattice"])
 
     for s in range(params["sizes"][0], params["sizes"][1]+1):
+        if only is not None and s not in only:
+            continue
         # get HNFs
         hnfs = get_HNFs(s,params["lat_vecs"],params["basis_vecs"],3)
         out = AtomicFile(args["outfile"]+"."+str(s))
@@ -135,8 +158,6 @@ def _enum_out(args):
     from phenum.msg import verbosity
     from random import seed
     from phenum.grouptheory import get_full_HNF, SmithNormalForm
-    from os.path import isfile
-    from glob import glob
     from copy import deepcopy
 
     if args["seed"] is not None:
@@ -147,12 +168,7 @@ def _enum_out(args):
         
     params = io.read_lattice(args["lattice"])
 
-    if not isfile(args["input"]):
-        if not len(glob("polya.out.*")) >= 1:
-            temp_args = deepcopy(args)
-            temp_args["outfile"] = "polya.out"
-            _polya_out(temp_args)
-
+    if not io.file_exists(args["input"]):
         temp_args = deepcopy(args)
         temp_args["input"] = "polya.out"
         temp_args["outfile"] = args["input"]
diff --git a/phenum/structures.py b/phenum/structures.py
index 45ad87a..5e15da3 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -420,6 +420,7 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
     """
 
     from os import listdir
+    from re import match
     
     files = listdir(".")
     if sizes is None:
@@ -428,9 +429,12 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
 
         ready = False
         for f in files:
-            if form in f and f[0]==form[0]:
-                sizes.append(int(f.split(".")[-1]))
+            stem, dot, size = f.rpartition(".")
+            if stem == form and match("[1-9][0-9]*$", size):
+                sizes.append(int(size))
                 ready = True
+        # the order of the directory listing has no meaning.
+        sizes.sort()
 
     else:
         for i in sizes:
-- 
2.43.0


From 92fa1c9598207731408fff9269a7e5958fdc3273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 03/28] fix: refuse damaged polya files and honour
 concentration filters

A polya file that was cut short silently lost its last HNF, a missing one its
whole cell size. A concentration filter did not apply to the shape totals and
only worked for binary systems.
---
 phenum/structures.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 5e15da3..01c0d0c 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -279,15 +279,19 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
     for s in cellsizes:
         source = infile+"."+str(s)
         if not path.isfile(source): #pragma: no cover
-            from .msg import err
-            err("Cannot find polya distribution for size {} at {}".format(s, source))
-            continue
+            raise ValueError("Cannot find polya distribution for size {} at {}".format(s, source))
 
         #First load the possible concentrations from the commented first line.
         with open(source) as f:
             headings = f.readline().split()
             concs = [tuple(map(int, h.split(":"))) for h in headings[2:-1]]
-        polya = loadtxt(source, int)
+        polya = loadtxt(source, int, ndmin=2)
+        # The last row contains the totals, without it the file is incomplete.
+        if (polya.shape[0] < 2 or polya.shape[1] != len(concs)+7 or polya[-1,0:6].any()
+            or (polya[:-1,6:].sum(axis=0) != polya[-1,6:]).any()
+            or (polya[:,6:-1].sum(axis=1) != polya[:,-1]).any()):
+            raise ValueError("The polya distribution for size {} at {} is incomplete or damaged. "
+                             "Please run the -polya option again.".format(s, source))
         distr = {}
 
         if HNFs is None and wanted_concs is None:
@@ -322,9 +326,8 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
                         count += 1
 
                 distr[tuple(HNF)] = {tuple(c): v for c, v in zip(cs, vs)}
-            for m, v in zip(polya[0:-1,0:6], polya[:-1,-1]):
-                if tuple(m) in distr:
-                    stotals[tuple(m)] = v
+            for m in distr:
+                stotals[m] = sum(distr[m].values())
 
         dataset[s] = {
             "distr": distr,
@@ -458,7 +461,7 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
                 elif restrict[0] == "shape":
                     res_values.append(tuple([int(i) for i in values.split()[0:6]]))
                 elif restrict[0] == "conc":
-                    res_values.append(tuple([int(i) for i in values.split()[1:3]]))
+                    res_values.append(tuple([int(i) for i in values.split()[1:-1]]))
 
         distr = _distribute(infile, sizes,distribution,n=number,seed=seed,res_type=restrict[0],res_values=res_values)        
     else:
-- 
2.43.0


From 62ff3e6ef09507e736335d32a2fb3dc152193065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 04/28] fix: distribute exactly the number of structures asked
 for

Depending on the random numbers the distribution held more or fewer structures
than requested, or more of one kind than there are.
---
 phenum/structures.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 01c0d0c..5420bb4 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -71,8 +71,10 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
 
     result = {}
     rtotal = [0]
-    def vinsert(key, value, rtotal, n, result):
+    def vinsert(key, value, rtotal, n, result, limit):
         if rtotal[0] < n: #Only update if we are deficient in structures.
+            #Never go past the number wanted or the number there is.
+            value = min(value, n - rtotal[0], limit - result.get(key, 0))
             if value > 0:
                 if key in result:
                     result[key] += value
@@ -90,7 +92,7 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
         """
         if n == gtotal:
             for key, value, limit in relvals:
-                vinsert(key, limit, rtotal, n, result)
+                vinsert(key, limit, rtotal, n, result, limit)
         else:
             from math import modf
             from random import random, seed
@@ -119,13 +121,14 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
                     #by the time we have iterated through the whole list.
                     rf, qf = modf(value if recount == 0 else f(delta, *(ids[ftype](key)),dataset=dataset,ftotal=float(gtotal)))
                     retval = int(qf + (1 if random() < rf else 0))
-                    if not vinsert(key, retval, rtotal, n, result):
+                    if not vinsert(key, retval, rtotal, n, result, limit):
                         break
                 recount += 1
 
-            if recount == 3 and rtotal[0] < n: #pragma: no cover
-                from .msg import warn
-                warn("Reached maximum recursion limit in random assignment.")
+            #Top up the list with the most abundant ones there are any left of.
+            for key, value, limit in relvals:
+                if not vinsert(key, limit, rtotal, n, result, limit):
+                    break
                 
     #First, compile a dictionary at the lowest level that has the weights
     #for the desired value of 'n'.
-- 
2.43.0


From 9db0f235329651396f69ea5b1f5e4915b478f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 05/28] fix: report internal failures instead of exiting with
 status 0

The symmetry code printed a message and called exit() when a consistency
check failed, so that a failed run ended with exit status 0 and no output.
The failures now raise. The arrow mapping is only required when the system
has arrows: a hexagonal lattice without arrows can be enumerated.
---
 phenum/enumeration.py  |  3 ++-
 phenum/grouptheory.py  | 42 +++++++++++++++++-------------------------
 phenum/symmetry.py     |  3 +--
 phenum/vector_utils.py | 22 ++++++----------------
 4 files changed, 26 insertions(+), 44 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index cd521b1..dc302e0 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -106,7 +106,8 @@ def _polya_out(args, only=None):
         for thnf in hnfs:
             hnf = [thnf[0][0],thnf[1][0],thnf[1][1],thnf[2][0],thnf[2][1],thnf[2][2]]
             out.write("  {0: <26}".format(' '.join(map(str, hnf))))
-            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3)
+            sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3,
+                                  arrows=sum(a_concs) != 0)
             agroup = []
             len_sym_g = len(sym_g.perm.site_perm)
             for i in range(len_sym_g):
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 0367b06..61744f2 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -233,12 +233,11 @@ def _map_dvector_permutation(rd,d,eps):
                 break
 
     if len(RP) != len(d): #pragma: no cover
-        print("d-vector didn't permute in map_dvector_permutation "
-              "This usually means that the d-set from the input structure and the d-set"
-              " from the struct_enum.out have a different origin or don't live in the same"
-              " unit cell. This probably isn't your fault---the code should overcome this."
-              ,RP)
-        exit()
+        raise RuntimeError("d-vector didn't permute in map_dvector_permutation "
+                           "This usually means that the d-set from the input structure and the d-set"
+                           " from the struct_enum.out have a different origin or don't live in the same"
+                           " unit cell. This probably isn't your fault---the code should overcome this."
+                           " {}".format(RP))
     return(RP)
 
         
@@ -315,8 +314,7 @@ def SmithNormalForm(HNF):
             M[maxidx] = list(map(operator.sub,M[maxidx],[mult*i for i in M[minidx]]))
             A[maxidx] = list(map(operator.sub,A[maxidx],[mult*i for i in A[minidx]]))
             if dot(dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
-                print("ROW: Transformation matrices didn't work")
-                exit()
+                raise RuntimeError("ROW: Transformation matrices didn't work")
         if M[j][j] == 0:
             maxidx = [abs(M[0][j]),abs(M[1][j]),abs(M[2][j])].index(max([abs(M[0][j]),abs(M[1][j]),abs(M[2][j])]))
             tmprow = list(A[j])
@@ -327,8 +325,7 @@ def SmithNormalForm(HNF):
             M[j] = list(M[maxidx])
             M[maxidx] = tmprow    
         if np.dot(np.dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
-            print("ROWSWAP: Transformation matrices didn't work")
-            exit()
+            raise RuntimeError("ROWSWAP: Transformation matrices didn't work")
 
         while (3-M[j].count(0)) >1:
             (minidx,maxidx) = _find_minmax_indices(M[j])
@@ -340,8 +337,7 @@ def SmithNormalForm(HNF):
                 B[i][maxidx] = B[i][maxidx]-mult * B[i][minidx]
 
             if np.dot(np.dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
-                print("COLS: Transformation matrices didn't work")
-                exit()
+                raise RuntimeError("COLS: Transformation matrices didn't work")
 
         if M[j][j] < 0:
             for i in range(3):
@@ -360,8 +356,7 @@ def SmithNormalForm(HNF):
         if ((3-M[j].count(0)) >1) or ((3-[M[0][j],M[1][j],M[2][j]].count(0)) >1):
             continue
         if np.dot(np.dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
-            print("COLSWAP: Transformation matrices didn't work")
-            exit()
+            raise RuntimeError("COLSWAP: Transformation matrices didn't work")
 
         l_div = []
         for i in range(1,3):
@@ -396,15 +391,12 @@ def SmithNormalForm(HNF):
             B[i][2]=-B[i][2]
 
     if np.dot(np.dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
-        print("END: Transformation matrices didn't work.")
-        exit()
+        raise RuntimeError("END: Transformation matrices didn't work.")
     check = [M[0][1],M[0][2],M[1][0],M[1][2],M[2][0],M[2][1]]
     if any(check) != 0: #pragma: no cover
-        print("Not diagonal")
-        exit()
+        raise RuntimeError("Not diagonal")
     if M[1][1] % M[0][0] != 0 or M[2][2] % M[1][1] != 0: #pragma: no cover
-        print("SNF conditions not met")
-        exit()
+        raise RuntimeError("SNF conditions not met")
         
     return(M,A,B)
 
@@ -568,8 +560,7 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                 temp_gp = np.round(rgp).astype(int)
                 temp_ag = np.round(rag).astype(int)
                 if not np.allclose(rgp,temp_gp,rtol=0,atol=eps): #pragma: no cover
-                    print("Transform left big fractional parts")
-                    exit()
+                    raise RuntimeError("Transform left big fractional parts")
 
                 gp = temp_gp
                 ag = temp_ag
@@ -612,9 +603,10 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                             skip[jm] = True
                             break
 
-                if np.count_nonzero(dgp == 0) > 1 or np.count_nonzero(dap == 0) > 1: #pragma: no cover
-                    print("(d,g)-->(d',g') mapping failed in get_rotation_perm_lists")
-                    exit()
+                if arrows and np.count_nonzero(dap == 0) > 1: #pragma: no cover
+                    raise ValueError("(d,g)-->(d',g') mapping failed in get_rotation_perm_lists: "
+                                     "arrows are only possible if the symmetries of the lattice "
+                                     "map the cartesian axes onto each other.")
 
             # Now we have the (d',g') table for this rotation. Now
             # record the permutation
diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index 3fa118e..239346b 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -187,8 +187,7 @@ def bring_into_cell(vec,cart_to_latt,latt_to_cart,eps):
             elif v < 0.0-eps:
                 vec[i] += 1
         if (c>maxc): #pragma: no cover
-            print("ERROR: loop does not end in bring_into_cell. Probably compiler bug.")
-            exit()
+            raise RuntimeError("ERROR: loop does not end in bring_into_cell. Probably compiler bug.")
 
     # Put the point back into cartesion coordinate representation
     vec = matmul(latt_to_cart,vec).tolist()
diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index fc7d88d..b1dcd24 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -115,9 +115,7 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
                     greal = matmul(L,[float(z1),float(z2),float(z3)]).tolist() 
                     g = [int(i) for i in greal] # Convert the g-vector from real to integer
                     if not allclose(greal,g,rtol=eps,atol=eps): #pragma: no cover
-                        from .msg import err
-                        err("map2G didn't work in map_enumStr_to_real_space")
-                        exit()
+                        raise RuntimeError("map2G didn't work in map_enumStr_to_real_space")
                     # Bring the g-vector back into the first tile
                     g = [g[i]%S[i] for i in range(len(S))] 
                     # g_indx is the index in the configuration string that
@@ -126,9 +124,7 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
                     g_indx.append((iD)*S[0]*S[1]*S[2]+g[0]*S[1]*S[2]+g[1]*S[2]+g[2])
 
     if ic != n*n_d: #pragma: no cover
-        from .msg import err
-        err("ERROR: map_enumStr_to_real_space: Didn't find the correct # of basis atoms")
-        exit()
+        raise RuntimeError("ERROR: map_enumStr_to_real_space: Didn't find the correct # of basis atoms")
 
     k = system_data["k"]
     x = []
@@ -199,10 +195,8 @@ def _minkowski_reduce_basis(IN,eps):
             break
 
     if not _minkowski_conditions_check(OUT,eps): #pragma: no cover
-        from .msg import err
-        err("ERROR in minkowski_reduce_basis: Minkowski conditions not met."
-            "Number of iterations: {}".format(str(limit)))
-        exit()
+        raise RuntimeError("ERROR in minkowski_reduce_basis: Minkowski conditions not met."
+                           "Number of iterations: {}".format(str(limit)))
     
     # we want to make sure that the det is positive.
     # NOTE: This *destroys* the mathematical picture of a "greedy reduced basis" (Minkowski), but
@@ -368,9 +362,7 @@ def _reduce_C_in_ABC(A,B,C,eps):
     for i in range(3):
         for j in range(3):
             if abs(temp[i][j] - int(round(temp[i][j]))) > eps: #pragma: no cover
-                from .msg import err
-                err("Lattice was not preserved in reduce_C_in_ABC")
-                exit()
+                raise RuntimeError("Lattice was not preserved in reduce_C_in_ABC")
 
     return A, B, C
 
@@ -410,9 +402,7 @@ def _gaussian_reduce_two_vectors(U,V,eps):
     it = 1
     while not done:
         if it > 10: # pragma: no cover
-            from .msg import err
-            err("gaussian_reduce_two_vectors failed to converge in 10 iterations")
-            exit()
+            raise RuntimeError("gaussian_reduce_two_vectors failed to converge in 10 iterations")
         R = [V[i]-int(round(dot(U,V)/float(dot(U,U))+1E-10))*U[i] for i in range(3)] #Shorten V as much as possible
         V = U # Swap U and V (so U remains the shortest)
         U = R
-- 
2.43.0


From 97b995e91dcfb6efc56532ab90e160878fe65228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 06/28] fix: compare arrows site by site when looking for
 superperiodic structures

The arrows of a structure and of its translate were compared after dropping
the sites without an arrow, so structures in which the arrows sit on
different sites counted as superperiodic and were lost. The random search
over arrow arrangements never rejected superperiodic ones, could not draw
the last arrangement, and did not end when fewer arrangements exist than
were asked for.
---
 phenum/phonons.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 028a557..98fdc5d 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -206,9 +206,9 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                             arrow_sites = [i[0] for i in coloring_with_arrows]
                             perm_sites = [orig_sites[i] for i in action]
                             rot_arrows = [arrow_sites[i] for i in action]
-                            perm_arrows = [permutation[site] for site in rot_arrows
-                                           if site >= 0]
-                            if orig_sites == perm_sites and perm_arrows == arrow_config:
+                            perm_arrows = [permutation[site] if site >= 0 else site
+                                           for site in rot_arrows]
+                            if orig_sites == perm_sites and perm_arrows == arrow_sites:
                                 unique = False
                                 break
                 if (accept is None or random() < accept) and unique == True:
@@ -220,13 +220,13 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
             orighash += 1
     else:
         from random import randrange
-        visited = []
-        orighash = randrange(maxpossible)
-        while len(arsurvivors) < num_wanted:
+        visited = set()
+        orighash = randrange(maxpossible+1)
+        while len(arsurvivors) < num_wanted and len(visited) <= maxpossible:
             while orighash in visited:
-                orighash = randrange(maxpossible)
+                orighash = randrange(maxpossible+1)
 
-            visited.append(orighash)
+            visited.add(orighash)
             
             arrow_config = _ainvhash(orighash,narrows,dim)
             unique = True
@@ -285,13 +285,17 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                     for trans in translations:
                         action = trans[0]
                         permutation = trans[1]
-                        orig_sites = [i[1] for i in coloring_with_arrows]
-                        perm_sites = [orig_sites[i] for i in action]
-                        perm_arrows = [permutation[site] for site in arrow_config
-                                         if site >= 0]
-                        if orig_sites == perm_sites and perm_arrows == arrow_config and action != list(range(len(action))) and permutation != list(range(len(permutation))): #pragma: no cover
-                            #This happens rarely and so it's really hard to access in tests.
-                            unique == False
+                        if action != list(range(len(action))) or (permutation != list(range(len(permutation)))):
+                            orig_sites = [i[1] for i in coloring_with_arrows]
+                            arrow_sites = [i[0] for i in coloring_with_arrows]
+                            perm_sites = [orig_sites[i] for i in action]
+                            rot_arrows = [arrow_sites[i] for i in action]
+                            perm_arrows = [permutation[site] if site >= 0 else site
+                                           for site in rot_arrows]
+                            if orig_sites == perm_sites and perm_arrows == arrow_sites: #pragma: no cover
+                                #This happens rarely and so it's really hard to access in tests.
+                                unique = False
+                                break
 
                 if unique == True:
                     arsurvivors.append(coloring_with_arrows)
-- 
2.43.0


From 1e9a577577e35cdca6f4bd581bd7256ccd33cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 07/28] fix: return as many structures as were asked for

A random subset drawn from Polya's count may name superperiodic structures,
which are not kept: the structures that are missing are now drawn from the
others. A single species of which only some atoms carry an arrow is sent to
the tree search, which places the arrows on every set of sites. A request
for none gives none, and a subset of more than a million structures is a
subset.
---
 phenum/phonons.py | 27 +++++++++++++++++++++------
 phenum/tree.py    |  8 ++++----
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 98fdc5d..3e07679 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -402,6 +402,9 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     from phenum.tree import brancher, guess_and_check_brancher
     import phenum.io_utils as io
 
+    if num_wanted <= 0:
+        return []
+
     cellsize = sum(concs)/len(params["basis_vecs"])
     decorations = arrow_concs(concs, a_concs)
     # get the symmetry group for this HNF. Assumes the group can be
@@ -431,6 +434,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # if we're enumerating a relatively large system (n>=10) but only
     # want a relatively small number of unique configurations (n<=100)
     # then we don't need to run the polya algorithm.
+    subset = []
     if (multinomial(concs) > 100000 and num_wanted <= 100) or (arrow_types !=0 and sum(concs) >= 12 and num_wanted <=100):
         total = 1e10
     else:
@@ -451,20 +455,23 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
                 subset = list(range(1, total+1)) 
                 shuffle(subset)
                 subset = subset[0:num_wanted]
-            else: # pragma: no cover
+            elif accept is not None: # pragma: no cover
                 # only used for data sets to large for test cases.
                 subset = num_wanted
-        elif num_wanted == total:
-            subset = []
-        else:
+            else: # pragma: no cover
+                from random import randrange
+                subset = set()
+                while len(subset) < num_wanted:
+                    subset.add(randrange(1, total+1))
+                subset = list(subset)
+        elif num_wanted > total:
             warn("number of configurations requested exceeds the number of "
                  "unique configurations available.")
-            subset = []
 
     # if we're doing a purely arrow enumeration then we don't need to
     # do the tree search but instead perform the final step of the
     # algorithm to find the possible unique displacements of the atoms
-    if len(concs) == 1 and all(decorations) >=0:
+    if len(concs) == 1 and len(sorted_concs) == 1:
         configs = []
         if float(num_wanted)/total < 0.001 and accept is None:
             small = True
@@ -487,6 +494,14 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
             configs = guess_and_check_brancher(sorted_concs, agroup, decorations, 6, supers, cellsize, num_wanted)
         else:
             configs = brancher(sorted_concs, agroup, decorations, 6, supers, cellsize, total, subset, accept)
+            if accept is None and subset and len(configs) < num_wanted:
+                # Polya's count includes the superperiodic structures,
+                # so some members of the subset may not exist.
+                from random import shuffle
+                others = brancher(sorted_concs, agroup, decorations, 6, supers, cellsize, total)
+                others = [config for config in others if config not in configs]
+                shuffle(others)
+                configs.extend(others[:num_wanted-len(configs)])
 
     if len(configs) != num_wanted and not super: #pragma: no cover
         #I've never been able to trigger this error.
diff --git a/phenum/tree.py b/phenum/tree.py
index f393d1b..17202ba 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -384,7 +384,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
 
     while branch[0] < C[0] and ((subset is not None and isinstance(subset, list) and len(survivors) < len(subset))
                                 or use_subset == False
-                                or (accept is not None and isinstance(subset, int) and len(survivors) == subset)):
+                                or (accept is not None and isinstance(subset, int) and len(survivors) < subset)):
         # perm determines if the new array is unique, if yes unique =
         # 0, if no then unique = 1, perm also outputs the stabilizers
         # for each level, the order for the first level, and the
@@ -405,7 +405,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                     if trans_branch == brancht and action != list(range(int(cellsize))):
                         unique = 1
                         if use_subset:
-                            if count in subset:
+                            if isinstance(subset, list) and count in subset:
                                 loc = subset.index(count)
                                 nv = count
                                 while nv in subset and nv < reduce(mul,C,1):
@@ -450,7 +450,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                             elif accept is not None and random() < accept and not isinstance(subset,list): #pragma: no cover
                                 if isinstance(subset,int) and len(survivors) < subset: #This option is only for large data sets that
                                     survivors.append(z) # are too large for unit testing purposes.
-                                else:
+                                elif subset is None:
                                     survivors.append(z)
                         count += 1
                 else:
@@ -471,7 +471,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
                                 tbranch = list(_invhash(branch, concs, len(colors_w_arrows))) # are too large for unit testing purposes.
                                 tbranch = [colors[leaf -1][1] for leaf in tbranch]
                                 survivors.append([[-1,leaf] for leaf in tbranch])
-                            else:
+                            elif subset is None:
                                 tbranch = list(_invhash(branch, concs, len(colors_w_arrows)))
                                 tbranch = [colors[leaf -1][1] for leaf in tbranch]
                                 survivors.append([[-1,leaf] for leaf in tbranch])
-- 
2.43.0


From ee8fd3ae4168b1c566012ad38cc9ed5b4bfacbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 08/28] fix: keep Polya's count exact

Binomial coefficients and the division by the order of the group were done
in floating point, which is wrong for counts beyond 2**53.
---
 phenum/polyaburnside.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index f429848..8140953 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -339,10 +339,10 @@ class Multinomial(object):
         t = 1
         if k < n-k:
             for i in range(n, n-k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
         else:
             for i in range(n, k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
 
         return t
 
@@ -544,4 +544,4 @@ def polya(concentrations, group, arrowings=None, debug=False):
         pp += p.coeff()
         
     rad = sum([p.coeff() for p in list(polyndict.values())])
-    return int(rad/float(len(group)))
+    return rad//len(group)
-- 
2.43.0


From d483a7277a8861686652e8951e5db5609a4bdd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 09/28] fix: make the random search for structures find
 distinct ones and end

The search compared the hash of a whole labeling, which is no hash of a
candidate, with the candidates seen, so that equivalent structures were
kept; it did not end when there are fewer structures than were asked for
and returned more than were asked for. Arrow arrangements are now compared
under the operations that keep the colors in place only.
---
 phenum/tree.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index 17202ba..0c6c67b 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -91,6 +91,19 @@ def _invhash(branch,colors,n):
                 si += 1
     return(new)
 
+def _location(config, ncolors):
+    """Turns a labeling into its hash array, i.e., undoes _invhash.
+
+    Args:
+        config (list): An integer array of the labeling.
+        ncolors (int): The number of colors in the labeling.
+
+    Returns:
+        location (list): The hash of each color in the labeling.
+    """
+    return [_hash([int(site == color) for site in config if site >= color])
+            for color in range(1, ncolors+1)]
+
 def _color_list(col):
     """Finds the unique colors in a labeling.
 
@@ -572,6 +585,8 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
 
     from .phonons import how_many_arrows, add_arrows
     from copy import deepcopy
+    from functools import reduce
+    from operator import mul
 
     # redifine the colors so that the arrows are treated like
     # their own color
@@ -581,6 +596,7 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
 
     # Find the mixed radix number counter for the system
     C = _coefficients(concs,n)
+    ncandidates = reduce(mul,C,1)
 
     # count how many arrows there are
     (narrows,arrow_types,concs_w_arrows) = how_many_arrows(colors_w_arrows)
@@ -593,22 +609,22 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
         pbar = tqdm(total=num_wanted)
 
     survivors = []
-    visited = []
+    visited = set()
 
     nfound = 0
-    while len(survivors) < num_wanted:
+    while len(survivors) < num_wanted and len(visited) < ncandidates:
         candidate = []
         # pick a random configuration to check against.
         for c_i in C:
             candidate.append(randint(0,c_i-1))
 
-        while candidate in visited:#pragma: no cover
+        while tuple(candidate) in visited:#pragma: no cover
             #This happens rarely and so it's really hard to access in tests.
             candidate = []
             for c_i in C:
                 candidate.append(randint(0,c_i-1))
 
-        visited.append(candidate)
+        visited.add(tuple(candidate))
         unique = True
 
         config = list(_invhash(candidate,concs,sum(concs)))
@@ -620,9 +636,9 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 new_config.append(config[j])
             new_config = list(new_config)
 
-            new_location = _hash(new_config)
+            new_location = _location(new_config, len(concs))
 
-            if new_location in visited and new_location != candidate: #pragma: no cover
+            if tuple(new_location) in visited and new_location != candidate: #pragma: no cover
                 #This happens rarely and so it's really hard to access in tests.
                 unique = False
                 break
@@ -650,7 +666,10 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 for con, t_con in enumerate(t_config):
                     t_config[con] = deepcopy(colors[t_con -1])
 
-                arsurvivors = add_arrows(t_config, group, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted, supers = supers, small = True)
+                # only the operations that keep the colors in place
+                # can map one arrow arrangement onto another.
+                stabilizer = [op for op in group if [config[j] for j in op[0]] == config]
+                arsurvivors = add_arrows(t_config, stabilizer, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted-len(survivors), supers = supers, small = True)
 
                 for survivor in arsurvivors:
                     survivors.append(survivor)
-- 
2.43.0


From ea1e49613ccf003ef67167726d058ecfb687c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 10/28] fix: give the same structures for a seed whether or not
 enum.in exists

Making the missing input file consumed random numbers, so that a run that
had to make it (or was interrupted after making it and run again) chose
other structures than one that found it. An enum.in that lists no system
gives an enum.out without structures instead of failing.
---
 phenum/enumeration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index dc302e0..eacb35a 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -178,6 +178,10 @@ def _enum_out(args):
         else:
             temp_args["distribution"] = args["distribution"]
         _enum_in(temp_args)
+        if args["seed"] is not None:
+            # The structures must not depend on whether the input
+            # file was there or had to be made first.
+            seed(a=args["seed"])
             
     systems = io.read_enum(args["input"])
 
@@ -192,7 +196,8 @@ def _enum_out(args):
     
     with io.AtomicFile(args["outfile"]) as f:
         io.write_enum(params, outfile=f)
-        enumlist = []    
+        enumlist = []
+        sortenum = []
         for hnf, conc, num_wanted in systems:
             if verbosity is not None and verbosity >= 1: #pragma: no cover
                 from tqdm import tqdm 
-- 
2.43.0


From 36ea1097dad97fe71f5ed8c83acc951a5f9c55ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 11/28] fix: write the atomic basis that the labelings refer to

The labelings are made for basis atoms brought into the unit cell, but the
header of enum.out gave them where lattice.in has them, so that makeStr
built other structures than the ones that were enumerated.
---
 phenum/enumeration.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index eacb35a..cc7cc2f 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -159,7 +159,10 @@ def _enum_out(args):
     from phenum.msg import verbosity
     from random import seed
     from phenum.grouptheory import get_full_HNF, SmithNormalForm
+    from phenum.symmetry import bring_into_cell
     from copy import deepcopy
+    from numpy import allclose, transpose
+    from numpy.linalg import inv
 
     if args["seed"] is not None:
         seed(a=args["seed"])
@@ -185,6 +188,13 @@ def _enum_out(args):
             
     systems = io.read_enum(args["input"])
 
+    # The labelings refer to the atomic basis inside the unit cell.
+    to_latt = inv(transpose(params["lat_vecs"]))
+    for i, vec in enumerate(params["basis_vecs"]):
+        inside = bring_into_cell(vec, to_latt, transpose(params["lat_vecs"]), 1E-10)
+        if not allclose(vec, inside, rtol=0, atol=1E-10):
+            params["basis_vecs"][i] = inside
+
     count_t = 1
     count_s = 0
     from operator import itemgetter
-- 
2.43.0


From 44e87aedf66ea521ef6a05ef84eb474698d7f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 12/28] fix: find all interior points of a supercell

Truncating towards zero (and in floating point) lost points whenever
d - e*b/c is negative, and makeStr failed for those supercells.
---
 phenum/vector_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index b1dcd24..318890a 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -100,8 +100,10 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
     for iD in range(0, n_d):  
         # For the limits on the loops, see the "interior_points.pdf" write-up
         for z1 in range(a):
-            for z2 in range(int((b*z1)/a), int(c+(b*z1)/a)):
-                for z3 in range(int(z1*(d-(e*b)/c)/a+(e*z2)/c), int(f+z1*(d-(e*b)/c)/a+(e*z2)/c)):
+            z2_0 = (b*z1)//a
+            for z2 in range(z2_0, c+z2_0):
+                z3_0 = (z1*(d*c-e*b)+e*z2*a)//(a*c)
+                for z3 in range(z3_0, f+z3_0):
                     ic +=1
                     # if ic > n: #pragma: no cover
                     #     from .msg import err
-- 
2.43.0


From 6618bb368e33c487f6943f1c4582d9fd17ff2ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 13/28] fix: honour -mink f and -remove_zeros f

Both options were taken for true whatever their value.
---
 phenum/phenumStr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index 2ab1474..70cca5c 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -198,7 +198,9 @@ def run(args):
     if args["remove_zeros"] == "t":
         args["remove_zeros"] = True
     else:
-        args["remove_zeors"] = False
+        args["remove_zeros"] = False
+
+    args["mink"] = args["mink"] in ["t", True]
 
     _make_structures(args)
         
-- 
2.43.0


From babaa14ae770d4978f86ff2f35c81b5c6ccfa3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 14/28] fix: displace each atom along its own arrow

The arrow of a site was looked up under the number of the atom in the file
instead of the site, the directions were not numbered as the enumeration
numbers them, and a cartesian displacement was added to direct coordinates.
MTP files displaced the atoms that have no arrow.
---
 phenum/io_utils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index b25aa9e..976af8b 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -435,7 +435,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         args (dict): Dictionary of user supplied input.
     """
 
-    from numpy import array
+    from numpy import array, matmul, linalg
     from phenum.element_data import get_lattice_parameter
     from random import uniform
     from itertools import product
@@ -449,7 +449,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     g_indx = space_data["gIndx"]
     arrows = structure_data["directions"]
 
-    arrow_directions = [[0,0,0],[0,0,-1],[0,-1,0],[-1,0,0],[1,0,0],[0,1,0],[0,0,1]]
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     concs = [0]*system_data["k"]
@@ -465,6 +465,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     for arrow in arrows:
         directions.append(array(arrow_directions[int(arrow)]))
     slv = space_data["sLV"]
+    slv_inv = linalg.inv(slv)
     with AtomicFile(filename) as poscar:
         poscar.write(title)
         poscar.write("{0:.2f}\n".format(lattice_parameter))
@@ -488,10 +489,12 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         poscar.write("D\n")
         for ilab, iAt in product(range(system_data["k"]),range(structure_data["n"]*system_data["nD"])):
             rattle = uniform(-args["rattle"],args["rattle"])
-            displace = directions[iAt]*args["displace"]*lattice_parameter
-            displace += displace*rattle
+            displace = directions[g_indx[iAt]]*args["displace"]
+            displace = displace + displace*rattle
             if labeling[g_indx[iAt]] == str(ilab):
-                out_array = array(space_data["aBas"][iAt]) + displace
+                # The displacement is cartesian, in units of the
+                # lattice parameter, the position is not.
+                out_array = array(space_data["aBas"][iAt]) + matmul(displace, slv_inv)
                 poscar.write(" {}\n".format(
                     "  ".join(["{0: .8f}".format(i) for i in out_array.tolist()])))
 
@@ -521,7 +524,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     struct_n = structure_data["strN"]
 
     # The arrow basis.
-    arrow_directions = [[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     # Construct the concentrations of the atoms from the labeling by
@@ -582,7 +585,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
         for iAt in range(structure_data["n"]*system_data["nD"]):
             for ilab in range(system_data["k"]):
                 rattle = uniform(-args["rattle"],args["rattle"])
-                displace = directions[iAt]*args["displace"]*lattice_parameter
+                displace = directions[gIndx[iAt]]*args["displace"]*lattice_parameter
                 # If the displacement is non zero and we're `rattling`
                 # the system then we need to modify the displacement
                 # by the amount being rattled.
-- 
2.43.0


From 04a1a0b0c87011c970344b20d4f03f8eb254d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 15/28] fix: read enum.out once when all structures are wanted

The file was opened twice, once to count the structures and once to read
them. If it was replaced in between structures at its end were left out.
---
 phenum/io_utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 976af8b..9b902d5 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -358,10 +358,7 @@ def read_enum_out(args):
     
     # which structures are wanted
     if args["structures"] == None:
-        with open(args["input"],"r") as f:
-            for count, l in enumerate(f):
-                pass
-        structures = list(range(1,count-13))
+        structures = "all"
     else:
         structures = args["structures"]
     # open the enum.out style file.
@@ -396,7 +393,7 @@ def read_enum_out(args):
                 system["eps"] = float(temp.strip())
             lc = line_count - (14 + system["nD"])
             if isinstance(structures,str):
-                use_struct = lc > 0
+                use_struct = lc > 0 and len(temp) > 0
             else:
                 use_struct = lc in structures and system["nD"] !=0
             if use_struct:
-- 
2.43.0


From 71c0d34485000f59d7c866c71bc2014132231a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 16/28] fix: replace result files even if looking at them fails
 once

---
 phenum/io_utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 9b902d5..a9ebbb2 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -12,9 +12,17 @@ class AtomicFile(object):
         filename (str): The name of the file to write.
     """
     def __init__(self, filename):
+        from errno import ENOENT
+        from stat import S_ISREG
         from uuid import uuid4
         self._target = os.path.realpath(filename)
-        if os.path.exists(self._target) and not os.path.isfile(self._target):
+        try:
+            regular = S_ISREG(os.stat(self._target).st_mode)
+        except (IOError, OSError) as error:
+            if error.errno != ENOENT:
+                raise
+            regular = True
+        if not regular:
             # Devices and pipes have to be written to directly.
             self._scratch = None
             self._file = open(self._target, 'w')
-- 
2.43.0


From 16822f30434863b17c5678314a9e0d3c1df9d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 17/28] fix: refuse polya files with rows or headings that are
 no cells of their size

---
 phenum/structures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phenum/structures.py b/phenum/structures.py
index 5420bb4..8ff53a4 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -290,7 +290,10 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
             concs = [tuple(map(int, h.split(":"))) for h in headings[2:-1]]
         polya = loadtxt(source, int, ndmin=2)
         # The last row contains the totals, without it the file is incomplete.
+        # All the others have to be cells of this size, and so do the headings.
         if (polya.shape[0] < 2 or polya.shape[1] != len(concs)+7 or polya[-1,0:6].any()
+            or (polya[:-1,[0,2,5]].prod(axis=1) != s).any()
+            or len(set((len(c), sum(c)) for c in concs)) > 1 or any(sum(c) % s for c in concs)
             or (polya[:-1,6:].sum(axis=0) != polya[-1,6:]).any()
             or (polya[:,6:-1].sum(axis=1) != polya[:,-1]).any()):
             raise ValueError("The polya distribution for size {} at {} is incomplete or damaged. "
-- 
2.43.0


From 8c0573d5e10541fa9ecca0ca8f002a4741a40404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 18/28] fix: use each species' own denominator in its
 concentration range

---
 phenum/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index 239346b..92fab8e 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -33,9 +33,9 @@ def get_concs_for_size(size,nspecies,res_concs,nB,concs):
     
     from itertools import product
     if res_concs == True:
-        denom = concs[0][2]
         vol_table = []
         for atom in concs:
+            denom = atom[2]
             minc = min(atom[0:2])
             maxc = max(atom[0:2])
             vol_table.append([int(math.floor(float(minc)/denom*size*nB)),int(math.ceil(float(maxc)/denom*size*nB)),size*nB])
-- 
2.43.0


From 6407aaa8573c24a2d6eec0a78f0937dd5c746e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 19/28] fix: pair each rotation with its own shift and basis
 permutation

---
 phenum/grouptheory.py | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 61744f2..6111251 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -445,32 +445,25 @@ def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps):
         else:
             temp_b = bas_vecs
         rd_rot = np.matmul(temp_b,rot[iOp]).tolist()
+        # Multiplying from the left applies the inverse of the
+        # rotation. Unless that has the same shift as the rotation
+        # itself the shift of the inverse operation has to be used.
+        inv_shift = bring_into_cell(np.negative(np.matmul(shift[iOp],rot[iOp])),
+                                    inv_par_lat,np.transpose(par_lat),eps)
+        for this_shift in [shift[iOp],inv_shift]:
+            if n_d > 1:
+                trd = [[i[j] + this_shift[j] for j in range(len(i))] for i in rd_rot]
+            else:
+                trd = [[rd_rot[j] + this_shift[j] for j in range(len(rd_rot))]]
+
+            rd = [bring_into_cell(i,inv_par_lat,np.transpose(par_lat),eps) for i in trd]
+            if all(any(np.allclose(i,j,atol=eps,rtol=0) for j in bas_vecs) for i in rd):
+                break
 
-        if n_d > 1:
-            rd_shift = [shift[iOp]]*n_d
-            rd =  [[rd_rot[i][j] + rd_shift[i][j] for j in range(len(rd_rot[i]))] for i in range(len(rd_rot))]
-            
-        else:
-            rd = [rd_rot[i] + shift[iOp][i] for i in range(len(rd_rot))]
-            
-        trd = list(rd)
-        if n_d > 1:
-            for iD in range(n_d):
-                rd[iD] = bring_into_cell(rd[iD],inv_par_lat,np.transpose(par_lat),eps)
-        else:
-            rd = bring_into_cell(rd,inv_par_lat,np.transpose(par_lat),eps)
-            
         # The v vector is the vector that must be added (it's a lattice
         # vector) to move a rotated d-vector back into the parent cell.
-
-        if n_d > 1:
-            v_temp.append([[rd[i][j] - trd[i][j] for j in range(len(rd[i]))] for i in range(len(rd))])
-        else:
-            v_temp.append([[rd[i] - trd[i] for i in range(len(rd))]])
-        if n_d > 1:
-            perm_temp.append(_map_dvector_permutation(rd,bas_vecs,eps))
-        else:
-            perm_temp.append(_map_dvector_permutation([rd],[bas_vecs],eps))
+        v_temp.append([[rd[i][j] - trd[i][j] for j in range(len(rd[i]))] for i in range(n_d)])
+        perm_temp.append(_map_dvector_permutation(rd,bas_vecs,eps))
 
     drp_list = RotPermList(nL=nl_temp,v=v_temp,perm=perm_temp)
 
@@ -741,6 +734,8 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
     a_type = [1]*len(bas_vecs)
     
     (sgrots,sgshifts) = get_spaceGroup(par_lat,a_type,bas_vecs,eps)
+    # par_rp_list holds the permutations of the inverses of these operations.
+    sgrots = [np.transpose(rot).tolist() for rot in sgrots]
     (fixing_ops,RPList,degeneracy) = _get_sLV_fixing_operations(HNF,par_lat,sgrots,sgshifts,
                                                                 par_rp_list,eps)
 
-- 
2.43.0


From 2d2a9c46ad11a18818713a00574e6dc843ffb79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 20/28] fix: distribute nothing when there are no structures

---
 phenum/structures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phenum/structures.py b/phenum/structures.py
index 8ff53a4..6d86fa7 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -70,6 +70,9 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
         n = gtotal
 
     result = {}
+    if n == 0:
+        return result
+
     rtotal = [0]
     def vinsert(key, value, rtotal, n, result, limit):
         if rtotal[0] < n: #Only update if we are deficient in structures.
-- 
2.43.0


From 20b394c3bf5e2cb5d0445da6d6a0faa1aa5ec7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 21/28] fix: recognise the identity among the translations of
 arrows

---
 phenum/phonons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 3e07679..d0199d9 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -201,7 +201,7 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                     for trans in translations:
                         action = trans[0]
                         permutation = trans[1]
-                        if action != list(range(len(action))) or (permutation != list(range(len(permutation)))):
+                        if action != list(range(len(action))) or (list(permutation) != list(range(len(permutation)))):
                             orig_sites = [i[1] for i in coloring_with_arrows]
                             arrow_sites = [i[0] for i in coloring_with_arrows]
                             perm_sites = [orig_sites[i] for i in action]
@@ -285,7 +285,7 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                     for trans in translations:
                         action = trans[0]
                         permutation = trans[1]
-                        if action != list(range(len(action))) or (permutation != list(range(len(permutation)))):
+                        if action != list(range(len(action))) or (list(permutation) != list(range(len(permutation)))):
                             orig_sites = [i[1] for i in coloring_with_arrows]
                             arrow_sites = [i[0] for i in coloring_with_arrows]
                             perm_sites = [orig_sites[i] for i in action]
-- 
2.43.0


From 3ddc8d9645cc7ab2be686a9d6bc9e459d79cd719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 22/28] fix: count each operation of a supercell once

---
 phenum/grouptheory.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 6111251..131724b 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -663,6 +663,22 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                 temp_ident.append([ident[il][i] for i in perm])
             tperms_perm.append(np.reshape(temp_ident,(n*n_d)).tolist())
             
+        # Rotations that only differ by one of the translations would
+        # give the same compositions again, which must not be counted
+        # more than once.
+        seen = set()
+        distinct = []
+        for iOp in range(len(temp_rperms_perm)):
+            arrow_key = tuple(temp_arrow_perm[iOp]) if arrows else ()
+            if (tuple(temp_rperms_perm[iOp]),arrow_key) in seen:
+                continue
+            distinct.append(iOp)
+            for t_perm in tperms_perm:
+                seen.add((tuple(t_perm[i] for i in temp_rperms_perm[iOp]),arrow_key))
+
+        temp_rperms_perm = [temp_rperms_perm[iOp] for iOp in distinct]
+        temp_arrow_perm = [temp_arrow_perm[iOp] for iOp in distinct]
+
         rp_list_nl = len(temp_rperms_perm)*n
         rp_list_perm_sites = [0]*rp_list_nl
         rp_list_perm_arrows = [0]*rp_list_nl
-- 
2.43.0


From 34514c17ec4ab0c8c75a96b8bdc962e39232f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 23/28] fix: refuse polya files that list a superlattice twice

---
 phenum/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phenum/structures.py b/phenum/structures.py
index 6d86fa7..65fa482 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -296,6 +296,7 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
         # All the others have to be cells of this size, and so do the headings.
         if (polya.shape[0] < 2 or polya.shape[1] != len(concs)+7 or polya[-1,0:6].any()
             or (polya[:-1,[0,2,5]].prod(axis=1) != s).any()
+            or len(set(map(tuple, polya[:-1,0:6]))) != len(polya)-1
             or len(set((len(c), sum(c)) for c in concs)) > 1 or any(sum(c) % s for c in concs)
             or (polya[:-1,6:].sum(axis=0) != polya[-1,6:]).any()
             or (polya[:,6:-1].sum(axis=1) != polya[:,-1]).any()):
-- 
2.43.0


From eb809e9d04c2036ff21e4af4b703b79ae910435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:00 +0000
Subject: [PATCH 24/28] fix: count the labelings of large cells without
 overflow

---
 phenum/numerics.py | 9 +++++----
 phenum/phonons.py  | 3 +++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/phenum/numerics.py b/phenum/numerics.py
index 4a2575d..9efc7e5 100755
--- a/phenum/numerics.py
+++ b/phenum/numerics.py
@@ -64,8 +64,9 @@ def multinomial(n):
         new_sum = binomials[i-1][0]-binomials[i-1][1]
         binomials.append([new_sum,n[i]])
         
-    bins = []
+    # The product is built from python's integers, which can not overflow.
+    result = 1
     for b in binomials:
-        bins.append(binomial_coefficient(b[0],b[1]))
-    
-    return np.prod(bins)
+        result *= binomial_coefficient(int(b[0]),int(b[1]))
+
+    return result
diff --git a/phenum/phonons.py b/phenum/phonons.py
index d0199d9..c9e48d7 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -405,6 +405,9 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     if num_wanted <= 0:
         return []
 
+    # The concentrations may be numpy integers, which overflow in the
+    # combinatorics of large cells.
+    concs = [int(c) for c in concs]
     cellsize = sum(concs)/len(params["basis_vecs"])
     decorations = arrow_concs(concs, a_concs)
     # get the symmetry group for this HNF. Assumes the group can be
-- 
2.43.0


From 6876c953bfccaaa1293fae559ef6503b8d9b1500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:10 +0000
Subject: [PATCH 25/28] fix: give palladium and lead their own volumes

---
 phenum/element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/element_data.py b/phenum/element_data.py
index 60bab56..93e280e 100644
--- a/phenum/element_data.py
+++ b/phenum/element_data.py
@@ -12,7 +12,7 @@ element_volume ={"H":37.2958,"He":32.1789,"Li":21.2543,"Be":8.49323,"B":7.24205,
                  "In":26.6861,"Sn":29.3238,"Sb":27.1733,"Te":62.3227,"I":24.3807,"Xe":59.582,
                  "Cs":110.723,"Ba":63.253,"Hf":23.1748,"Ta":18.1323,"W":15.7772,"Re":14.8694,
                  "Os":14.5485,"Ir":14.1558,"Pt":15.0591,"Au":16.9793,"Hg":27.6914,"Tl":29.2949,
-                 "Pd":30.3218,"Bi":31.2849}
+                 "Pb":30.3218,"Bi":31.2849}
 
 def get_lat_param_element(lat_vecs,n_basis_atoms,element):
     """Finds the lattice parameter of an element for the given set of lattice.
-- 
2.43.0


From b01c6285b8b4c09514b096a60cda0679a7c70342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:33 +0000
Subject: [PATCH 26/28] fix: write one character per site when there are more
 than ten species

---
 phenum/io_utils.py     | 15 +++++++++------
 phenum/vector_utils.py |  4 ++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index a9ebbb2..5033f92 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -318,15 +318,18 @@ def create_labeling(config):
         label (str): The atomic labeling for the arrangement.
         arrow (str): The arrow directions for the arrangement.
     """
+    # Every site takes one character, species number ten is an 'a'.
+    from string import digits, ascii_lowercase
+    names = digits + ascii_lowercase
     label = ''
     arrow =  ''
     if isinstance(config[0],list):
         for i in config:
-            label += str(i[1]-1)
+            label += names[i[1]-1]
             arrow += str(i[0]+1)
     else:
         for i in config:
-            label += str(i-1)
+            label += names[i-1]
             arrow += '0'
     
     return(label,arrow)
@@ -459,7 +462,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
 
     concs = [0]*system_data["k"]
     for atom in range(structure_data["n"]*system_data["nD"]):
-        concs[int(labeling[g_indx[atom]])] += 1
+        concs[int(labeling[g_indx[atom]], 36)] += 1
         
     def_title = "{} str #: {}\n".format(str(system_data["title"]),str(structure_data["strN"]))
 
@@ -496,7 +499,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
             rattle = uniform(-args["rattle"],args["rattle"])
             displace = directions[g_indx[iAt]]*args["displace"]
             displace = displace + displace*rattle
-            if labeling[g_indx[iAt]] == str(ilab):
+            if int(labeling[g_indx[iAt]], 36) == ilab:
                 # The displacement is cartesian, in units of the
                 # lattice parameter, the position is not.
                 out_array = array(space_data["aBas"][iAt]) + matmul(displace, slv_inv)
@@ -539,7 +542,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     for i in range(system_data["k"]):
         this_conc = 0
         for atom in range(structure_data["n"]*system_data["nD"]):
-            if labeling[gIndx[atom]] == str(i):
+            if int(labeling[gIndx[atom]], 36) == i:
                 this_conc += 1
         concs.append(this_conc)
     def_title = "{}{}\n".format(str(system_data["title"]),str(structure_data["strN"]))
@@ -595,7 +598,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
                 # the system then we need to modify the displacement
                 # by the amount being rattled.
                 displace += displace*rattle
-                if labeling[gIndx[iAt]] == str(ilab):
+                if int(labeling[gIndx[iAt]], 36) == ilab:
                     # The final atomic position is the position from
                     # the basis plus the total displacement.
                     out_array = list(array(dot(transpose(sLV),space_data["aBas"][iAt])) + displace)
diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index 318890a..df1ae8b 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -137,7 +137,7 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
     spin = []
     if k % 2 == 0:
         for iAt in range(0, n*n_d):
-            i = int(labeling[g_indx[iAt]])
+            i = int(labeling[g_indx[iAt]], 36)
             digit = i-k//2 # convert 0..k-1 label to spin variable -k/2..k/2
             x[i] += 1  # Keep track of the concentration of each atom type
             if digit < 0:
@@ -146,7 +146,7 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
                 spin.append(digit+1) # skip 0 as a spin if k is even
     else:
         for iAt in range(0, n*n_d):
-            i = int(labeling[g_indx[iAt]])
+            i = int(labeling[g_indx[iAt]], 36)
             spin.append(i-k//2)
             x[i] += 1 # Keep track of the concentration of each atom type
 
-- 
2.43.0


From 744d971fda1bf5023262ca2095ec3ab94ae6df6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:05 +0000
Subject: [PATCH 27/28] fix: keep the numbers of large cells apart in enum.out

---
 phenum/enumeration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index cc7cc2f..57ac25e 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -202,7 +202,8 @@ def _enum_out(args):
             "{8: >10}  {9: >18}  {10: >44}    {11}    {12: >21}\n")
     def fmtn(l, n):
         l = [int(i) for i in l]
-        return (''.join(["{{{0:d}: >{1:d}d}}".format(i, n) for i in range(len(l))])).format(*l)
+        # The numbers must stay apart however large they are.
+        return (''.join([" {{{0:d}: >{1:d}d}}".format(i, n-1) for i in range(len(l))])).format(*l)
     
     with io.AtomicFile(args["outfile"]) as f:
         io.write_enum(params, outfile=f)
-- 
2.43.0


From 9602ca35b3bd18fc661b0570a7c48ba437cd98b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:36 +0000
Subject: [PATCH 28/28] fix: find the symmetries of large cells in spite of
 rounding errors

The permutations of a supercell were found with real numbers that the
Smith normal form's left transform magnifies, so that large cells were
refused ('Transform left big fractional parts').
---
 phenum/grouptheory.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 131724b..4679c19 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -530,8 +530,9 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
             diag = [SNF[iH][0][0],SNF[iH][1][1],SNF[iH][2][2]]
             g = np.transpose(_make_member_list(diag))
     
-        t_inv = np.matmul(L[iH],a_tinv)
-        T = np.linalg.inv(t_inv)
+        # The left transform has a determinant of +-1, its inverse is
+        # an integer matrix as well.
+        L_inv = np.round(np.linalg.inv(L[iH])).astype(int)
         n_op = len(Op[iH].rot)
         na_op = len(arrowg)
         
@@ -546,16 +547,23 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                 dgp.append(tt)
 
             for iD in range(n_d): # Loop over each row in the (d,g) table
-                temp1 = np.transpose([RPlist[iH].v[iOp][iD]]*n)
-                temp2 = np.matmul(np.matmul(Op[iH].rot[iOp],T),g)
+                # The rotation and the lattice vector are integers in
+                # lattice coordinates. They are rounded there, since the
+                # transforms of large cells magnify the rounding errors.
+                v_latt = np.matmul(a_tinv,RPlist[iH].v[iOp][iD])
+                rot_latt = np.matmul(np.matmul(a_tinv,Op[iH].rot[iOp]),a_t)
+                temp_v = np.round(v_latt).astype(int)
+                temp_rot = np.round(rot_latt).astype(int)
+                if not (np.allclose(v_latt,temp_v,rtol=0,atol=eps) and
+                        np.allclose(rot_latt,temp_rot,rtol=0,atol=eps)): #pragma: no cover
+                    raise RuntimeError("Transform left big fractional parts")
+
+                temp1 = np.transpose([temp_v]*n)
+                temp2 = np.matmul(np.matmul(temp_rot,L_inv),g)
                 rag = np.transpose(np.matmul(arrowg,Op[iH].rot[iOp]))
-                rgp = np.matmul(t_inv,(-temp1+temp2))
-                temp_gp = np.round(rgp).astype(int)
                 temp_ag = np.round(rag).astype(int)
-                if not np.allclose(rgp,temp_gp,rtol=0,atol=eps): #pragma: no cover
-                    raise RuntimeError("Transform left big fractional parts")
 
-                gp = temp_gp
+                gp = np.matmul(L[iH],(-temp1+temp2))
                 ag = temp_ag
                 temp_diag = np.transpose([diag]*n)
                 gp = gp%temp_diag # Mod by each entry of
-- 
2.43.0

