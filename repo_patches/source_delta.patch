From 29ec64e167ab355b7c02071a3c1670dd54e0dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:52 +0000
Subject: [PATCH 01/11] fix: pair transverse shear correction factors with
 their own direction

The first diagonal term of the transverse shear stiffness multiplies the xz
shear strain and the second one the yz shear strain, as interior_edge()
already assumes, so they must be corrected by scf_k13 and scf_k23
respectively. The cell-based methods and the boundary edges of the edge-based
method had both factors swapped.
---
 meshless/espim/plate2d_add_k0s_cell_based.py              | 4 ++--
 meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py | 4 ++--
 meshless/espim/plate2d_add_k0s_edge_based.py              | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/meshless/espim/plate2d_add_k0s_cell_based.py b/meshless/espim/plate2d_add_k0s_cell_based.py
index a325762..275100b 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based.py
@@ -73,9 +73,9 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             k23 = tria.prop.scf_k23
             E = tria.prop.E
             h = tria.prop.h
-        E44 = k23 * E[0, 0]
+        E44 = k13 * E[0, 0]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[1, 1]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
index 8b13e2e..3aa3dd0 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
@@ -41,9 +41,9 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             E = tria.prop.E
             h = tria.prop.h
 
-        E44 = k23 * E[0, 0]
+        E44 = k13 * E[0, 0]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[1, 1]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_edge_based.py b/meshless/espim/plate2d_add_k0s_edge_based.py
index 778daa8..125dcc1 100644
--- a/meshless/espim/plate2d_add_k0s_edge_based.py
+++ b/meshless/espim/plate2d_add_k0s_edge_based.py
@@ -42,9 +42,9 @@ def boundary_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area):
         E = tria1.prop.E
         h = tria1.prop.h
 
-    E44 = k23 * E[0, 0]
+    E44 = k13 * E[0, 0]
     E45 = 0 # min(k13, k23) * E[0, 1]
-    E55 = k13 * E[1, 1]
+    E55 = k23 * E[1, 1]
 
     if maxl_from_area:
         maxl = Ac**0.5
-- 
2.43.0


From d840bdff88a8442932ce623417f4348464a07264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 02/11] fix: make pow2mul() preserve the value of the
 expression

Powers were replaced as plain text, which corrupted function calls
(sin(x)**2), non-integer and zero exponents (x**0.5, x**0), chained powers
(x**2**3), dotted names and literals (1.5**2), names ending with pow, and
raised for pow(x, n) and nested pow() calls. Only replace a base raised to a
plain integer exponent, matching the parentheses.
---
 meshless/dev/sympytools.py | 64 +++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index a94f224..59a849c 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -21,28 +21,50 @@ def pow2mul(instr):
         The output string
 
     """
-    old_new = []
+    def multiply(base, exp):
+        return '(' + '*'.join([base.replace(' ', '')]*int(exp) or ['1']) + ')'
+
     outstr = instr
-    search = r'\w+\*\*\s*\d+|\([^\(\)]+\)\*\*\d+'
-    for p in re.findall(search, instr):
-        var, exp = p.replace(' ', '').split('**')
-        new = '(' + '*'.join([var]*int(exp)) + ')'
-        old_new.append([p, new])
-    # putting longer patterns first to avoid wrong
-    # substitutions
-    old_new = sorted(old_new, key=lambda x: len(x[0]))[::-1]
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
-
-    old_new = []
-    for p in re.findall(r'pow\(\s*[^,]+\s*,\s*[^,\)]+\s*\)', instr):
-        var, exp = p.split('pow')[1].split(',')
-        var = var.strip()[1:] # removing left parentheses
-        exp = exp.strip()[:-1] # removing right parentheses
-        new = '(' + '*'.join(['(' + var.replace(' ', '') + ')']*int(exp)) + ')'
-        old_new.append([p, new])
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
+
+    # pow(base, exp), inner calls first
+    for call in reversed(list(re.finditer(r'(?<![\w.])pow\s*\(', instr))):
+        args = []
+        depth = 1
+        arg_start = call.end()
+        for i in range(call.end(), len(outstr)):
+            if outstr[i] in '([{':
+                depth += 1
+            elif outstr[i] in ')]}':
+                depth -= 1
+            if depth == 0 or (depth == 1 and outstr[i] == ','):
+                args.append(outstr[arg_start:i].strip())
+                arg_start = i + 1
+            if depth == 0:
+                break
+        if depth == 0 and len(args) == 2 and re.match(r'\d+$', args[1]):
+            outstr = (outstr[:call.start()] + multiply('(' + args[0] + ')', args[1])
+                      + outstr[i+1:])
+
+    # base**exp, with an exponent that is a plain integer and that is not
+    # raised to another power, keeping in mind that a**b**c is a**(b**c)
+    exp_pattern = r'\s*\*\*\s*(\d+)(?![\w.]|\s*\*\*)'
+    outstr = re.sub(r'(?<![\w.])(?<![\d.][eE][-+])(\w+)' + exp_pattern,
+                    lambda match: multiply(*match.groups()), outstr)
+
+    # (base)**exp, where the parentheses are not those of a function call
+    match = re.search(r'\)' + exp_pattern, outstr)
+    while match:
+        end = match.end()
+        depth = 0
+        for i in range(match.start(), -1, -1):
+            depth += (outstr[i] == ')') - (outstr[i] == '(')
+            if depth == 0:
+                break
+        if depth == 0 and not re.search(r'[\w\)\]]\s*$', outstr[:i]):
+            new = multiply(outstr[i:match.start()+1], match.group(1))
+            outstr = outstr[:i] + new + outstr[match.end():]
+            end = i + len(new)
+        match = re.compile(r'\)' + exp_pattern).search(outstr, end)
 
     return outstr
 
-- 
2.43.0


From 0e68503eb5e348650421bb8f6e514c1f617ca6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 03/11] fix: expand powers with pow2mul() in mprint_as_array()

The textual replacement done here was not aware of names containing one
another: x**2 + xx**2 was printed as (x*x) + x(x*x).
---
 meshless/dev/sympytools.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 59a849c..10cb103 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -322,10 +322,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
                     ls.append('    {expr}'.format(expr=k*expr))
             else:
                 if pow_by_mul:
-                    v = str(v)
-                    for p in re.findall(r'\w+\*\*\d+', v):
-                        var, exp = p.split('**')
-                        v = v.replace(p, '(' + '*'.join([var]*int(exp)) + ')')
+                    v = pow2mul(str(v))
                 ls.append('{0}[pos+{1}] {2} {3}'.format(mname, i, op, v))
     string = '\n'.join(ls)
     if print_file:
-- 
2.43.0


From bace9c9bd0a430e2237e6ff466b2ff62bc25cb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 04/11] fix: do not modify the input matrix in
 mprint_as_array(use_cse=True)

---
 meshless/dev/sympytools.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 10cb103..679a51f 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -285,9 +285,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
     """
     ls = []
     if use_cse:
-        subs, m_list = sympy.cse(m)
-        for i, v in enumerate(m_list):
-            m[i] = v
+        subs, (m,) = sympy.cse(m)
     if sufix is None:
         namesufix = '{0}'.format(mname)
     else:
-- 
2.43.0


From 49935bf7fd0a9a4113b73059180edbbe799fd972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 05/11] fix: print the upper triangle in mprint_as_sparse()
 with dofpernode

With is_symmetric=True the indices already reduced to each node block were
compared, so that terms of the upper triangle were lost and terms of the lower
triangle were printed.
---
 meshless/dev/sympytools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 679a51f..06ed322 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -113,15 +113,14 @@ def mprint_as_sparse(m, mname, sufix=None, subs=None, header=None,
 
     num = 0
     for (i, j), v in np.ndenumerate(m):
+        if is_symmetric and i > j:
+            continue
         if dofpernode:
             nindi = (i // dofpernode) + 1
             nindj = (j // dofpernode) + 1
             i = i % dofpernode
             j = j % dofpernode
         if v:
-            if is_symmetric and i > j:
-                continue
-
             if subs:
                 v = v.subs(subs)
             num += 1
-- 
2.43.0


From a989c409e9fcf9b679268fe5fdd265e661ae482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:33 +0000
Subject: [PATCH 06/11] fix: do not share the input points with the mesh in
 read_delaunay()

With 3-D points each node kept a view of the array given by the user, so that
changing the mesh changed the points and vice-versa.
---
 meshless/espim/read_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshless/espim/read_mesh.py b/meshless/espim/read_mesh.py
index 7a25e04..0805580 100644
--- a/meshless/espim/read_mesh.py
+++ b/meshless/espim/read_mesh.py
@@ -95,7 +95,7 @@ def read_delaunay(points, tri, silent=True):
         if len(pt) == 2:
             pt = np.array([pt[0], pt[1], 0.])
         nid += 1
-        node = GRID(nid, cp=0, cd=0, xyz=pt)
+        node = GRID(nid, cp=0, cd=0, xyz=np.array(pt))
         node.trias = set()
         node.edges = set()
         node.index = set()
-- 
2.43.0


From b05316b36474612c474a75744ca805e3dd2e9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:45 +0000
Subject: [PATCH 07/11] fix: store global coordinates in read_mesh()

Nodes defined in a local coordinate system kept their local coordinates in
node.xyz while the element centroids are given in the global system, so that
the smoothing domains mixed both.
---
 meshless/espim/read_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshless/espim/read_mesh.py b/meshless/espim/read_mesh.py
index 0805580..2c25df9 100644
--- a/meshless/espim/read_mesh.py
+++ b/meshless/espim/read_mesh.py
@@ -25,6 +25,8 @@ def read_mesh(filepath, silent=True):
     msg('Reading mesh...', silent=silent)
     mesh = read_bdf(filepath, debug=False)
     for node in mesh.nodes.values():
+        # node.xyz is used everywhere as the position in the global system
+        node.set_position(mesh, node.get_position())
         node.trias = set()
         node.edges = set()
         node.index = set()
-- 
2.43.0


From 1f2a1da47ec5fe8621a70a7edd709df78a871a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:13 +0000
Subject: [PATCH 08/11] fix: use the requested operator with collect_for in
 mprint_as_array()

---
 meshless/dev/sympytools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 06ed322..c1c44c1 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -313,7 +313,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
         if v:
             if collect_for is not None:
                 v = collect(v, collect_for, evaluate=False)
-                ls.append('{0}[pos+{1}] +='.format(mname, i))
+                ls.append('{0}[pos+{1}] {2}'.format(mname, i, op))
                 for k, expr in v.items():
                     ls.append('#   collected for {k}'.format(k=k))
                     ls.append('    {expr}'.format(expr=k*expr))
-- 
2.43.0


From 16af592c9cf44ae45aaff2136415b2441c36e14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 09/11] fix: SFEM derivation: bending strains of the middle
 vertices

kxx took phiy and kyy took nothing in one column of each sub-triangle, so a
linear rotation field did not give its curvature.  The statements pasted in
the example are the ones the script now prints.
---
 theory/sfem/sfem_tria3_example.py | 126 +++++++++++++++---------------
 theory/sfem/stiffmatrices.py      |  12 +--
 2 files changed, 69 insertions(+), 69 deletions(-)

diff --git a/theory/sfem/sfem_tria3_example.py b/theory/sfem/sfem_tria3_example.py
index 1780207..1841bbd 100644
--- a/theory/sfem/sfem_tria3_example.py
+++ b/theory/sfem/sfem_tria3_example.py
@@ -307,27 +307,27 @@ for tria in trias:
     k0[i1*dof+0, i1*dof+0] += Ac*((A11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i1*dof+0, i1*dof+1] += Ac*((A12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i1*dof+0, i1*dof+3] += Ac*((B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i1*dof+0, i1*dof+4] += Ac*(-0.166666666666667*d2*(B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)/Ac + (B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i1*dof+0, i1*dof+4] += Ac*((B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i1*dof+0, i2*dof+0] += Ac*((A11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i1*dof+0, i2*dof+1] += Ac*((A12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i1*dof+0, i2*dof+3] += Ac*((B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i1*dof+0, i2*dof+4] += Ac*((B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i1*dof+0, i2*dof+4] += Ac*((B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i1*dof+0, i3*dof+0] += Ac*((A11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i1*dof+0, i3*dof+1] += Ac*((A12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + A66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i1*dof+0, i3*dof+3] += Ac*((B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i1*dof+0, i3*dof+4] += Ac*(-0.166666666666667*d2*(B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)/Ac + (B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i1*dof+0, i3*dof+4] += Ac*((B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i1*dof+1, i1*dof+0] += Ac*((A12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i1*dof+1, i1*dof+1] += Ac*((A22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i1*dof+1, i1*dof+3] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i1*dof+1, i1*dof+4] += Ac*(-0.166666666666667*d2*(B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)/Ac + (B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i1*dof+1, i1*dof+4] += Ac*((B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i1*dof+1, i2*dof+0] += Ac*((A12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i1*dof+1, i2*dof+1] += Ac*((A22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i1*dof+1, i2*dof+3] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i1*dof+1, i2*dof+4] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i1*dof+1, i2*dof+4] += Ac*((B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i1*dof+1, i3*dof+0] += Ac*((A12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i1*dof+1, i3*dof+1] += Ac*((A22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (A26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + A66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i1*dof+1, i3*dof+3] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i1*dof+1, i3*dof+4] += Ac*(-0.166666666666667*d2*(B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)/Ac + (B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i1*dof+1, i3*dof+4] += Ac*((B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i1*dof+2, i1*dof+2] += Ac*((E44*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + E45*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + E55*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i1*dof+2, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + E55*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)/Ac + (E44*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + E45*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
     k0[i1*dof+2, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + E45*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)/Ac + (E45*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + E55*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
@@ -341,56 +341,56 @@ for tria in trias:
     k0[i1*dof+3, i1*dof+1] += Ac*((B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i1*dof+3, i1*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i1*dof+3, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)/Ac + (D11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
-    k0[i1*dof+3, i1*dof+4] += Ac*(-0.166666666666667*d2*(D11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)/Ac + (0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)/Ac + (D12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i1*dof+3, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)/Ac + (D12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
     k0[i1*dof+3, i2*dof+0] += Ac*((B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i1*dof+3, i2*dof+1] += Ac*((B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i1*dof+3, i2*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i1*dof+3, i2*dof+3] += Ac*((D11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)
-    k0[i1*dof+3, i2*dof+4] += Ac*((D11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (D12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
+    k0[i1*dof+3, i2*dof+4] += Ac*((D12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
     k0[i1*dof+3, i3*dof+0] += Ac*((B11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i1*dof+3, i3*dof+1] += Ac*((B12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + B66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i1*dof+3, i3*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i1*dof+3, i3*dof+3] += Ac*((D11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)
-    k0[i1*dof+3, i3*dof+4] += Ac*(-0.166666666666667*d2*(D11*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D16*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)/Ac + (D12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
-    k0[i1*dof+4, i1*dof+0] += Ac*((-0.166666666666667*B11*d2/Ac + B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i1*dof+4, i1*dof+1] += Ac*((-0.166666666666667*B12*d2/Ac + B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i1*dof+3, i3*dof+4] += Ac*((D12*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + D66*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E45*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + E55*(-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i1*dof+4, i1*dof+0] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
+    k0[i1*dof+4, i1*dof+1] += Ac*((B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i1*dof+4, i1*dof+2] += Ac*((E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i1*dof+4, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + (-0.166666666666667*D11*d2/Ac + D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i1*dof+4, i1*dof+4] += Ac*(-0.166666666666667*d2*(-0.166666666666667*D11*d2/Ac + D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)/Ac + (0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac + (-0.166666666666667*D12*d2/Ac + D22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
-    k0[i1*dof+4, i2*dof+0] += Ac*((-0.166666666666667*B11*d2/Ac + B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i1*dof+4, i2*dof+1] += Ac*((-0.166666666666667*B12*d2/Ac + B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i1*dof+4, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
+    k0[i1*dof+4, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (D22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i1*dof+4, i2*dof+0] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
+    k0[i1*dof+4, i2*dof+1] += Ac*((B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i1*dof+4, i2*dof+2] += Ac*((E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i1*dof+4, i2*dof+3] += Ac*((E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac + (-0.166666666666667*D11*d2/Ac + D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i1*dof+4, i2*dof+4] += Ac*((E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac + (-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)*(-0.166666666666667*D12*d2/Ac + D22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)/Ac + (-d1/2 - 0.166666666666667*d2 - d3/2)*(-0.166666666666667*D11*d2/Ac + D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
-    k0[i1*dof+4, i3*dof+0] += Ac*((-0.166666666666667*B11*d2/Ac + B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i1*dof+4, i3*dof+1] += Ac*((-0.166666666666667*B12*d2/Ac + B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i1*dof+4, i2*dof+3] += Ac*((D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)
+    k0[i1*dof+4, i2*dof+4] += Ac*((D22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
+    k0[i1*dof+4, i3*dof+0] += Ac*((B12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
+    k0[i1*dof+4, i3*dof+1] += Ac*((B22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + B66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i1*dof+4, i3*dof+2] += Ac*((E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i1*dof+4, i3*dof+3] += Ac*((E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac + (-0.166666666666667*D11*d2/Ac + D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i1*dof+4, i3*dof+4] += Ac*(-0.166666666666667*d2*(-0.166666666666667*D11*d2/Ac + D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac + (-0.166666666666667*D12*d2/Ac + D22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i1*dof+4, i3*dof+3] += Ac*((D12*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D16*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)
+    k0[i1*dof+4, i3*dof+4] += Ac*((D22*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D26*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (D26*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + D66*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
     k0[i2*dof+0, i1*dof+0] += Ac*((A11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i2*dof+0, i1*dof+1] += Ac*((A12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i2*dof+0, i1*dof+3] += Ac*((B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i2*dof+0, i1*dof+4] += Ac*(-0.166666666666667*d2*(B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)/Ac + (B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i2*dof+0, i1*dof+4] += Ac*((B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i2*dof+0, i2*dof+0] += Ac*((A11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i2*dof+0, i2*dof+1] += Ac*((A12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i2*dof+0, i2*dof+3] += Ac*((B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i2*dof+0, i2*dof+4] += Ac*((B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i2*dof+0, i2*dof+4] += Ac*((B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i2*dof+0, i3*dof+0] += Ac*((A11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i2*dof+0, i3*dof+1] += Ac*((A12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + A66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i2*dof+0, i3*dof+3] += Ac*((B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i2*dof+0, i3*dof+4] += Ac*(-0.166666666666667*d2*(B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)/Ac + (B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i2*dof+0, i3*dof+4] += Ac*((B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i2*dof+1, i1*dof+0] += Ac*((A12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i2*dof+1, i1*dof+1] += Ac*((A22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i2*dof+1, i1*dof+3] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i2*dof+1, i1*dof+4] += Ac*(-0.166666666666667*d2*(B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)/Ac + (B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i2*dof+1, i1*dof+4] += Ac*((B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i2*dof+1, i2*dof+0] += Ac*((A12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i2*dof+1, i2*dof+1] += Ac*((A22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i2*dof+1, i2*dof+3] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i2*dof+1, i2*dof+4] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i2*dof+1, i2*dof+4] += Ac*((B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i2*dof+1, i3*dof+0] += Ac*((A12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i2*dof+1, i3*dof+1] += Ac*((A22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (A26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + A66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i2*dof+1, i3*dof+3] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i2*dof+1, i3*dof+4] += Ac*(-0.166666666666667*d2*(B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)/Ac + (B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i2*dof+1, i3*dof+4] += Ac*((B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i2*dof+2, i1*dof+2] += Ac*((E44*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + E45*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + E55*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i2*dof+2, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + E55*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)/Ac + (E44*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + E45*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
     k0[i2*dof+2, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + E45*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)/Ac + (E45*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + E55*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
@@ -404,56 +404,56 @@ for tria in trias:
     k0[i2*dof+3, i1*dof+1] += Ac*((B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i2*dof+3, i1*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i2*dof+3, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)/Ac + (D11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
-    k0[i2*dof+3, i1*dof+4] += Ac*(-0.166666666666667*d2*(D11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)/Ac + (0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)/Ac + (D12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i2*dof+3, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)/Ac + (D12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
     k0[i2*dof+3, i2*dof+0] += Ac*((B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i2*dof+3, i2*dof+1] += Ac*((B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i2*dof+3, i2*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i2*dof+3, i2*dof+3] += Ac*((D11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)
-    k0[i2*dof+3, i2*dof+4] += Ac*((D11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (D12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
+    k0[i2*dof+3, i2*dof+4] += Ac*((D12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
     k0[i2*dof+3, i3*dof+0] += Ac*((B11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i2*dof+3, i3*dof+1] += Ac*((B12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + B66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i2*dof+3, i3*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i2*dof+3, i3*dof+3] += Ac*((D11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)
-    k0[i2*dof+3, i3*dof+4] += Ac*(-0.166666666666667*d2*(D11*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D16*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)/Ac + (D12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
-    k0[i2*dof+4, i1*dof+0] += Ac*((B11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i2*dof+4, i1*dof+1] += Ac*((B12*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B22*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i2*dof+3, i3*dof+4] += Ac*((D12*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + D66*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E45*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + E55*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i2*dof+4, i1*dof+0] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
+    k0[i2*dof+4, i1*dof+1] += Ac*((B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i2*dof+4, i1*dof+2] += Ac*((E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i2*dof+4, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + (D11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i2*dof+4, i1*dof+4] += Ac*(-0.166666666666667*d2*(D11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)/Ac + (0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac + (D12*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D22*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (D16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
-    k0[i2*dof+4, i2*dof+0] += Ac*((B11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i2*dof+4, i2*dof+1] += Ac*((B12*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B22*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i2*dof+4, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)/Ac + (D12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
+    k0[i2*dof+4, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)/Ac + (D22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i2*dof+4, i2*dof+0] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
+    k0[i2*dof+4, i2*dof+1] += Ac*((B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i2*dof+4, i2*dof+2] += Ac*((E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i2*dof+4, i2*dof+3] += Ac*((E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac + (D11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i2*dof+4, i2*dof+4] += Ac*((E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac + (-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)*(D12*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D22*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)/Ac + (-d1/2 - 0.166666666666667*d2 - d3/2)*(D11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)/Ac + (D16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
-    k0[i2*dof+4, i3*dof+0] += Ac*((B11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i2*dof+4, i3*dof+1] += Ac*((B12*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B22*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + B26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i2*dof+4, i2*dof+3] += Ac*((D12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)
+    k0[i2*dof+4, i2*dof+4] += Ac*((D22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
+    k0[i2*dof+4, i3*dof+0] += Ac*((B12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
+    k0[i2*dof+4, i3*dof+1] += Ac*((B22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + B66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i2*dof+4, i3*dof+2] += Ac*((E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i2*dof+4, i3*dof+3] += Ac*((E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac + (D11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i2*dof+4, i3*dof+4] += Ac*(-0.166666666666667*d2*(D11*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D12*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac + (D12*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D22*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + D26*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i2*dof+4, i3*dof+3] += Ac*((D12*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D16*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)
+    k0[i2*dof+4, i3*dof+4] += Ac*((D22*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D26*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (D26*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + D66*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
     k0[i3*dof+0, i1*dof+0] += Ac*((A11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i3*dof+0, i1*dof+1] += Ac*((A12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i3*dof+0, i1*dof+3] += Ac*((B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i3*dof+0, i1*dof+4] += Ac*(-0.166666666666667*d2*(B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)/Ac + (B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i3*dof+0, i1*dof+4] += Ac*((B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i3*dof+0, i2*dof+0] += Ac*((A11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i3*dof+0, i2*dof+1] += Ac*((A12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i3*dof+0, i2*dof+3] += Ac*((B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i3*dof+0, i2*dof+4] += Ac*((B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i3*dof+0, i2*dof+4] += Ac*((B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i3*dof+0, i3*dof+0] += Ac*((A11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i3*dof+0, i3*dof+1] += Ac*((A12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + A66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i3*dof+0, i3*dof+3] += Ac*((B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i3*dof+0, i3*dof+4] += Ac*(-0.166666666666667*d2*(B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)/Ac + (B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i3*dof+0, i3*dof+4] += Ac*((B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i3*dof+1, i1*dof+0] += Ac*((A12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i3*dof+1, i1*dof+1] += Ac*((A22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i3*dof+1, i1*dof+3] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i3*dof+1, i1*dof+4] += Ac*(-0.166666666666667*d2*(B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)/Ac + (B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i3*dof+1, i1*dof+4] += Ac*((B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i3*dof+1, i2*dof+0] += Ac*((A12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i3*dof+1, i2*dof+1] += Ac*((A22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i3*dof+1, i2*dof+3] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i3*dof+1, i2*dof+4] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i3*dof+1, i2*dof+4] += Ac*((B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i3*dof+1, i3*dof+0] += Ac*((A12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i3*dof+1, i3*dof+1] += Ac*((A22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (A26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + A66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i3*dof+1, i3*dof+3] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i3*dof+1, i3*dof+4] += Ac*(-0.166666666666667*d2*(B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)/Ac + (B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i3*dof+1, i3*dof+4] += Ac*((B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i3*dof+2, i1*dof+2] += Ac*((E44*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + E45*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + E55*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i3*dof+2, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + E55*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)/Ac + (E44*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + E45*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
     k0[i3*dof+2, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + E45*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)/Ac + (E45*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + E55*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
@@ -467,32 +467,32 @@ for tria in trias:
     k0[i3*dof+3, i1*dof+1] += Ac*((B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i3*dof+3, i1*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
     k0[i3*dof+3, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)/Ac + (D11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
-    k0[i3*dof+3, i1*dof+4] += Ac*(-0.166666666666667*d2*(D11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)/Ac + (0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)/Ac + (D12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i3*dof+3, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)/Ac + (D12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
     k0[i3*dof+3, i2*dof+0] += Ac*((B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i3*dof+3, i2*dof+1] += Ac*((B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i3*dof+3, i2*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
     k0[i3*dof+3, i2*dof+3] += Ac*((D11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)
-    k0[i3*dof+3, i2*dof+4] += Ac*((D11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-d1/2 - 0.166666666666667*d2 - d3/2)/Ac + (D12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
+    k0[i3*dof+3, i2*dof+4] += Ac*((D12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
     k0[i3*dof+3, i3*dof+0] += Ac*((B11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i3*dof+3, i3*dof+1] += Ac*((B12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + B66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i3*dof+3, i3*dof+2] += Ac*((E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
     k0[i3*dof+3, i3*dof+3] += Ac*((D11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)
-    k0[i3*dof+3, i3*dof+4] += Ac*(-0.166666666666667*d2*(D11*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D16*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)/Ac + (D12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
-    k0[i3*dof+4, i1*dof+0] += Ac*((-0.166666666666667*B11*d2/Ac + B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i3*dof+4, i1*dof+1] += Ac*((-0.166666666666667*B12*d2/Ac + B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
+    k0[i3*dof+3, i3*dof+4] += Ac*((D12*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + D66*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E45*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + E55*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i3*dof+4, i1*dof+0] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
+    k0[i3*dof+4, i1*dof+1] += Ac*((B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
     k0[i3*dof+4, i1*dof+2] += Ac*((E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i3*dof+4, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac + (-0.166666666666667*D11*d2/Ac + D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac)
-    k0[i3*dof+4, i1*dof+4] += Ac*(-0.166666666666667*d2*(-0.166666666666667*D11*d2/Ac + D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)/Ac + (0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac + (-0.166666666666667*D12*d2/Ac + D22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + d2/2 + d3/2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac)
-    k0[i3*dof+4, i2*dof+0] += Ac*((-0.166666666666667*B11*d2/Ac + B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i3*dof+4, i2*dof+1] += Ac*((-0.166666666666667*B12*d2/Ac + B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
+    k0[i3*dof+4, i1*dof+3] += Ac*((-0.0833333333333333*a2*d2 + 0.0833333333333333*a3*d3)*(E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a2*c2 - 0.0833333333333333*b3*d3)/Ac)
+    k0[i3*dof+4, i1*dof+4] += Ac*((0.0833333333333333*b2*c2 - 0.0833333333333333*b3*c3)*(E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)/Ac + (D22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 - a2/2 - 0.333333333333333*a3 + 0.166666666666667*d1 + 0.333333333333333*d2 + d3/2)/Ac + (D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 + b2/2 + 0.333333333333333*b3 - 0.166666666666667*c1 - 0.333333333333333*c2 - c3/2)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + Ac2/2 + Ac3/2 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
+    k0[i3*dof+4, i2*dof+0] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
+    k0[i3*dof+4, i2*dof+1] += Ac*((B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
     k0[i3*dof+4, i2*dof+2] += Ac*((E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i3*dof+4, i2*dof+3] += Ac*((E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac + (-0.166666666666667*D11*d2/Ac + D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac)
-    k0[i3*dof+4, i2*dof+4] += Ac*((E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac + (-0.166666666666667*a1 + 0.166666666666667*a3 + 0.166666666666667*d1)*(-0.166666666666667*D12*d2/Ac + D22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)/Ac + (-d1/2 - 0.166666666666667*d2 - d3/2)*(-0.166666666666667*D11*d2/Ac + D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac)
-    k0[i3*dof+4, i3*dof+0] += Ac*((-0.166666666666667*B11*d2/Ac + B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i3*dof+4, i3*dof+1] += Ac*((-0.166666666666667*B12*d2/Ac + B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (-0.166666666666667*B16*d2/Ac + B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i3*dof+4, i2*dof+3] += Ac*((D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + 0.0833333333333333*a2*c2 + a3*c3/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-a1*d1/4 - 0.0833333333333333*a2*d2 - 0.166666666666667*a3*d3)/Ac)
+    k0[i3*dof+4, i2*dof+4] += Ac*((D22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.166666666666667*a1 + 0.166666666666667*a3 - 0.333333333333333*d1 - 0.166666666666667*d2 - d3/2)/Ac + (D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.166666666666667*b1 - 0.166666666666667*b3 + 0.333333333333333*c1 + 0.166666666666667*c2 + c3/2)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(b1*c1/4 + 0.0833333333333333*b2*c2 + 0.166666666666667*b3*c3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a3*c3 - b1*d1/4 - 0.0833333333333333*b2*d2 - b3*d3/4)/Ac)
+    k0[i3*dof+4, i3*dof+0] += Ac*((B12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
+    k0[i3*dof+4, i3*dof+1] += Ac*((B22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (B26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + B66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
     k0[i3*dof+4, i3*dof+2] += Ac*((E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i3*dof+4, i3*dof+3] += Ac*((E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac + (-0.166666666666667*D11*d2/Ac + D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac)
-    k0[i3*dof+4, i3*dof+4] += Ac*(-0.166666666666667*d2*(-0.166666666666667*D11*d2/Ac + D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac + (-0.166666666666667*D12*d2/Ac + D22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + (-0.166666666666667*D16*d2/Ac + D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)
+    k0[i3*dof+4, i3*dof+3] += Ac*((D12*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D16*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + 0.0833333333333333*a2*c2 - b1*d1/4 - b2*d2/4 - 0.0833333333333333*b3*d3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(a1*d1/4 + 0.166666666666667*a2*d2 + 0.0833333333333333*a3*d3)/Ac)
+    k0[i3*dof+4, i3*dof+4] += Ac*((D22*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D26*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + (D26*(0.333333333333333*a1 + a2/2 + 0.166666666666667*a3 + 0.166666666666667*d1 - 0.166666666666667*d2)/Ac + D66*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac)*(-0.333333333333333*b1 - b2/2 - 0.166666666666667*b3 - 0.166666666666667*c1 + 0.166666666666667*c2)/Ac + (E44*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E45*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + (E45*(-b1*c1/4 - 0.166666666666667*b2*c2 - 0.0833333333333333*b3*c3)/Ac + E55*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)*(0.166666666666667*Ac1 + a1*c1/4 + a2*c2/4 + 0.0833333333333333*a3*c3 - 0.0833333333333333*b2*d2)/Ac)
 
 print('Atotal:', Atotal)
 
diff --git a/theory/sfem/stiffmatrices.py b/theory/sfem/stiffmatrices.py
index b54a1d5..10cfe03 100644
--- a/theory/sfem/stiffmatrices.py
+++ b/theory/sfem/stiffmatrices.py
@@ -139,8 +139,8 @@ Bm = 1/Ac*(Ac1*Bm1 + Ac2*Bm2 + Ac3*Bm3)
 
 Bb1 = 1/(2*Ac1)*(Matrix([
          #node1          node 2                node 3
-  [0, 0, 0, 0, 0,    0, 0, 0,  c1, -d1,      0, 0, 0, -b1,   0],
-  [0, 0, 0, 0, 0,    0, 0, 0,   0,   0,      0, 0, 0,   0,  a1],
+  [0, 0, 0, 0, 0,    0, 0, 0,  c1,   0,      0, 0, 0, -b1,   0],
+  [0, 0, 0, 0, 0,    0, 0, 0,   0, -d1,      0, 0, 0,   0,  a1],
   [0, 0, 0, 0, 0,    0, 0, 0, -d1,  c1,      0, 0, 0,  a1, -b1]])
 
   +
@@ -158,15 +158,15 @@ Bb2 = 1/(2*Ac2)*(Matrix([
 
   +
 
-  1/3*Matrix([[0, 0, 0,  c2, -d2,    0, 0, 0,  c2, -d2,    0, 0, 0,  c2, -d2],
-              [0, 0, 0,   0,   0,    0, 0, 0,   0,   0,    0, 0, 0,   0,   0],
+  1/3*Matrix([[0, 0, 0,  c2,   0,    0, 0, 0,  c2,   0,    0, 0, 0,  c2,   0],
+              [0, 0, 0,   0, -d2,    0, 0, 0,   0, -d2,    0, 0, 0,   0, -d2],
               [0, 0, 0, -d2,  c2,    0, 0, 0, -d2,  c2,    0, 0, 0, -d2,  c2]])
       )
 
 Bb3 = 1/(2*Ac3)*(Matrix([
          #node1                  node 2                node 3
-  [0, 0, 0, b3-c3,     0,    0, 0, 0,  c3, -d3,      0, 0, 0, 0, 0],
-  [0, 0, 0,     0, d3-a3,    0, 0, 0,   0,   0,      0, 0, 0, 0, 0],
+  [0, 0, 0, b3-c3,     0,    0, 0, 0,  c3,   0,      0, 0, 0, 0, 0],
+  [0, 0, 0,     0, d3-a3,    0, 0, 0,   0, -d3,      0, 0, 0, 0, 0],
   [0, 0, 0, d3-a3, b3-c3,    0, 0, 0, -d3,  c3,      0, 0, 0, 0, 0]])
 
   +
-- 
2.43.0


From 7e34f19ec49f3a96b4d55eed68aece57bc72df2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:12 +0000
Subject: [PATCH 10/11] fix: area_of_polygon() for integer coordinates whose
 products overflow

---
 meshless/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meshless/utils.py b/meshless/utils.py
index d54e844..ce40f96 100644
--- a/meshless/utils.py
+++ b/meshless/utils.py
@@ -7,6 +7,8 @@ import numpy as np
 def area_of_polygon(x, y):
     """Area of an arbitrary 2D polygon given its vertices
     """
+    x = np.asarray(x, dtype=float)
+    y = np.asarray(y, dtype=float)
     area = 0.0
     for i in range(-1, len(x)-1):
         area += x[i] * (y[i+1] - y[i-1])
-- 
2.43.0


From dc9dcbf6a16b119d4e27c8282944a0d34b6e68cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:12 +0000
Subject: [PATCH 11/11] fix: Lagrange interpolation with integer coordinates
 whose differences overflow

---
 meshless/interpolate.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/meshless/interpolate.py b/meshless/interpolate.py
index bffe000..68fff85 100644
--- a/meshless/interpolate.py
+++ b/meshless/interpolate.py
@@ -1,6 +1,14 @@
 import numpy as np
 
 
+def as_inexact(array):
+    """Array of floating point numbers, given that differences of integer
+    coordinates could overflow
+    """
+    array = np.asarray(array)
+    return array.astype(np.result_type(array.dtype, np.float64))
+
+
 def interpolate_lagrange_2D(x, y, x_nodes, y_nodes, field_nodes):
     """Interpolate values using 2D Lagrangian polynomials
 
@@ -25,8 +33,8 @@ def interpolate_lagrange_2D(x, y, x_nodes, y_nodes, field_nodes):
         Interpolated field
 
     """
-    x_nodes = np.asarray(x_nodes)
-    y_nodes = np.asarray(y_nodes)
+    x_nodes = as_inexact(x_nodes)
+    y_nodes = as_inexact(y_nodes)
     field_nodes = np.asarray(field_nodes)
     assert field_nodes.ndim == 2
     assert field_nodes.shape[0] == x_nodes.shape[0]
@@ -75,9 +83,9 @@ def interpolate_lagrange_3D(x, y, z, x_nodes, y_nodes, z_nodes, field_nodes):
         Interpolated field
 
     """
-    x_nodes = np.asarray(x_nodes)
-    y_nodes = np.asarray(y_nodes)
-    z_nodes = np.asarray(z_nodes)
+    x_nodes = as_inexact(x_nodes)
+    y_nodes = as_inexact(y_nodes)
+    z_nodes = as_inexact(z_nodes)
     field_nodes = np.asarray(field_nodes)
     assert field_nodes.ndim == 3
     assert field_nodes.shape[0] == x_nodes.shape[0]
-- 
2.43.0

