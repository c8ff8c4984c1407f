From f2a54189f9063c547672fa29ba3b5faf45cc5716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:25 +0000
Subject: [PATCH 01/29] fix: compare edge types and controls by value in graph
 analysis

The analysis compared strings with 'is', so the resulting core depended on
whether the interpreter interned them (e.g. an empty core when the modules are
loaded from a warm bytecode cache).
---
 pyphs/graphs/analysis.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 059c3eb..fd122b8 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -59,11 +59,11 @@ class GraphAnalysis:
             e = self.ic_edges[i]
             e_data = self.edges[e][2]
             # check if effort-controlled
-            if e_data['ctrl'] is 'e':
+            if e_data['ctrl'] == 'e':
                 # move edge at the top of edge list and set Lambda(edge) to 0
                 self.set_edge_ec(e)
             # check if flux-controlled
-            elif e_data['ctrl'] is 'f':
+            elif e_data['ctrl'] == 'f':
                 if self.Lambda[:, e].sum() == 1:
                     # edge 'e' imposes the potential on that node
                     # get node index
@@ -85,7 +85,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'storage':
+            if self.get_edge_data(e, 'type') == 'storage':
                 temp.append(e)
         return temp
 
@@ -96,7 +96,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'dissipative':
+            if self.get_edge_data(e, 'type') == 'dissipative':
                 temp.append(e)
         return temp
 
@@ -107,7 +107,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'port':
+            if self.get_edge_data(e, 'type') == 'port':
                 temp.append(e)
         return temp
 
@@ -118,7 +118,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'connector':
+            if self.get_edge_data(e, 'type') == 'connector':
                 temp.append(e)
         return temp
 
@@ -351,7 +351,7 @@ define it as effort-controlled (0 column in lambda).
         self.Lambda[:, 0] = 0
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'e')
         self.verbose('set_edge_ec')
@@ -377,7 +377,7 @@ controlled node from node list
         self.fc_edges = indices[-(nfc+1):]
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'f')
         self.verbose('set_edge_fc')
@@ -435,7 +435,7 @@ and the realizability of linked edge is chosen based on the connector type \
             print('link', e_label, self.get_edge_data(e, 'connector_type'),
                   ctrl, link_e_label)
         # get connector
-        if ctrl is 'e':
+        if ctrl == 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 self.inverse_alpha(e)
@@ -459,7 +459,7 @@ compatible'.format(e_label, link_e_label)
                     # move edge at the end of edge list
                     self.set_edge_fc(link_e)
 
-        if ctrl is 'f':
+        if ctrl == 'f':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 # assert linked edge is not effort controlled
-- 
2.43.0


From 7089a2c04da1c58a86ddca4113604ce82f167c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:25 +0000
Subject: [PATCH 02/29] fix: do not share the data load options between
 simulations

Every Simulation modified the same module-level dictionary, so that setting
data.start/stop/step of one simulation (or building a new one) changed what
the readers of all the others returned.
---
 pyphs/numerics/simulations/h5data/h5data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 8417f07..808d2e4 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -78,7 +78,8 @@ class H5Data(object):
 
         self._build_readers()
 
-        # init load options
+        # init load options (do not share them with other simulations)
+        self.config['load'] = dict(self.config['load'])
         self.start = None
         self.stop = None
         self.step = None
-- 
2.43.0


From c930dcc4e26b7f06fc486ac05e996d1eb0cd932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:39 +0000
Subject: [PATCH 03/29] fix: report a failing c++ simulation and keep the
 working directory

The exit status of the compiled simulation was ignored, so that a crashed or
killed executable looked like a completed simulation, and any exception other
than a failing build command left the interpreter in the build folder. Commands
are already run with cwd=cpp_path: the process-wide chdir is not needed.
---
 pyphs/numerics/simulations/simulation.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 3cd6764..9b51350 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -42,10 +42,7 @@ def system_call(cmd, **popenArgs):
     popenArgs['stderr'] = subprocess.STDOUT
     popenArgs['stdout'] = subprocess.PIPE
 
-    try:
-        popenArgs.pop('check')
-    except KeyError:
-        pass
+    check = popenArgs.pop('check', False)
 
     if VERBOSE >= 1:
         pri = print
@@ -63,6 +60,8 @@ def system_call(cmd, **popenArgs):
         if(retcode is not None):
             break
 
+    if check and retcode != 0:
+        raise subprocess.CalledProcessError(retcode, cmd)
 
 #    p = subprocess.Popen(cmd, shell=shell,
 #                         stdout=subprocess.PIPE,
@@ -473,9 +472,6 @@ class Simulation(object):
         # build simu.cpp
         simu2cpp(self)
 
-        # go to build folder
-        os.chdir(self.cpp_path)
-
         # Commands
         cmd = {
             'build_tree': '%s . -Bbuild' % self.config['cmake'],
@@ -513,16 +509,13 @@ class Simulation(object):
                     '\nAn error occured while building simulation executable.')
                 print('See log file {0} for details\n'.format(fid.name))
 
-                # go back to work folder
-                os.chdir(self.work_path)
-
                 raise error
 
         # VERBOSE: print build log
         if VERBOSE >= 3:
-            build_log = open('build.log', 'r')
-            for line in build_log:
-                print(line)
+            with open(fid.name, 'r') as build_log:
+                for line in build_log:
+                    print(line)
 
         # Running executable simulation
 
@@ -537,9 +530,6 @@ class Simulation(object):
         cmd = './bin/{0}'.format(self.label)
         self.system_call(cmd, **sp_config)
 
-        # go back to work folder
-        os.chdir(self.work_path)
-
     @staticmethod
     def system_call(cmd, **kwargs):
         """
-- 
2.43.0


From 6cc6e022e7215398e28473d8e0679c33934847ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:58 +0000
Subject: [PATCH 04/29] fix: close the results file after reading derived
 quantities

The readers of E, pd, ps, dtE, dtx, a, b, args and o returned before closing
the file they had opened, which then stayed opened for writing (and locked)
for the rest of the session.
---
 pyphs/numerics/simulations/h5data/h5data.py | 30 ++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 808d2e4..7ce83d3 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -854,14 +854,14 @@ or an integer nt (number of time steps).'
             arrays.append(array)
         output = numpy.hstack(arrays)[vslice]
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     def _expression(self, name, tslice=None, vslice=None, postprocess=None):
 
         tslice = self._tslice(tslice)
@@ -897,15 +897,15 @@ or an integer nt (number of time steps).'
         if not numpy.prod(output.shape):
             output = numpy.zeros((expectedNt, 0))
 
+        if close:
+            self.h5close()
+
         # Apply postprocess
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     def args(self, tslice=None, vslice=None, postprocess=None):
         """
         args
@@ -1049,14 +1049,14 @@ or an integer nt (number of time steps).'
         output = self.dx(tslice=tslice, vslice=vslice,
                          postprocess=lambda dx: dx*self.fs)
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     # ----------------------------------------------------------------------- #
 
     def a(self, tslice=None, vslice=None, postprocess=None):
@@ -1402,14 +1402,14 @@ or an integer nt (number of time steps).'
                                   self['dxH', tslice],
                                   self['dtx', tslice])
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     # ----------------------------------------------------------------------- #
 
     def E(self, tslice=None, vslice=None, postprocess=None):
@@ -1509,10 +1509,10 @@ or an integer nt (number of time steps).'
                               self['u', tslice],
                               self['y', tslice])
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
-
-        if close:
-            self.h5close()
-- 
2.43.0


From bcb879ac535e4fa8b5e430a922faebddfbb94f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:58 +0000
Subject: [PATCH 05/29] fix: component slices and decimated length of derived
 quantities

a, b, args applied the component slice to the time axis, and expressions
without arguments had one row less than the selected time slice when its length
is not a multiple of its step.
---
 pyphs/numerics/simulations/h5data/h5data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 7ce83d3..2a35961 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -852,7 +852,7 @@ or an integer nt (number of time steps).'
             if len(array.shape) < 2:
                 array = array[:, numpy.newaxis]
             arrays.append(array)
-        output = numpy.hstack(arrays)[vslice]
+        output = numpy.hstack(arrays)[:, vslice]
 
         if close:
             self.h5close()
@@ -875,7 +875,7 @@ or an integer nt (number of time steps).'
         if vslice is None:
             vslice = slice(None, None, None)
 
-        expectedNt = (tslice.stop-tslice.start)//tslice.step
+        expectedNt = len(range(tslice.start, tslice.stop, tslice.step))
 
         evalobj = self.method.to_evaluation(names=[name], vslice=vslice)
 
-- 
2.43.0


From 4f7fb98616abba675a29d033b64a8b1abe208646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:34 +0000
Subject: [PATCH 06/29] fix: apply every change given to Simulation.init

A new sample rate or solver option left the numerical core unchanged, new
parameter values were ignored by the python simulations, simulation options
were dropped, a second run started from the last state of the previous one
(unlike the c++ one), and rebuilding a method altered the object given by the
user (possibly shared with another simulation) and lost its parameters.
---
 pyphs/numerics/simulations/simulation.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 9b51350..36dbae5 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -255,8 +255,12 @@ class Simulation(object):
         Build the numerical method.
         """
         if self.config_method() != self.method.config:
-            self.method.__init__(self.method._core,
-                                 config=self.config_method())
+            # do not alter the given method, which may be used elsewhere
+            subs = self.method.subs
+            self.method = self.method.__class__(self.method._core,
+                                                config=self.config_method(),
+                                                label=self.method.label)
+            self.method.subs.update(subs)
 
     # -------------------------------------------------------------------------
 
@@ -306,6 +310,9 @@ class Simulation(object):
             for k in subs.keys():
                 if k not in self.method.subs.keys():
                     init_numeric = True
+            # parameters are embedded in the python numerical functions
+            if self.config['lang'] == 'python':
+                init_numeric = True
             if not init_numeric:
                 init_parameters = True
         self.method.subs.update(subs)
@@ -329,14 +336,17 @@ class Simulation(object):
                 self.inits.update(inits)
                 init_numeric = True
 
-        if any([self.config[k] != c[k] for k in
-                list(self.config_numeric().keys()) +
-                list(self.config_method().keys())]):
+        if any([self.config[k] != c[k] for k in c.keys()]):
             self.config.update(c)
             self.init_method()
+            init_numeric = True
 
         if init_numeric:
             self.init_numericalCore()
+        elif self.config['lang'] == 'python':
+            # restart from initial values, as the c++ executable does
+            self.nums.args[:] = 0.
+            self.nums.init()
 
         self.data.init_data(nt, sequ=u, seqp=p)
 
-- 
2.43.0


From 975bea9a54b4bf37f3f6279ac678c0eafd4ad1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:52 +0000
Subject: [PATCH 07/29] fix: read results in read-only mode and always release
 the file

Readers opened the results for writing: a plain read rewrote the superblock of
the file (which a crash could then damage), failed on read-only results and
excluded any other reader, and an error while reading left the file opened.
---
 pyphs/numerics/simulations/h5data/h5data.py | 142 ++++++++------------
 1 file changed, 56 insertions(+), 86 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 2a35961..4e9d9c7 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -481,13 +481,15 @@ or an integer nt (number of time steps).'
         """
         # close flag
         if not self._open:
-            self.h5open()
+            self.h5open('r')
             close = True
         else:
             close = False
-        shape = self.h5file[self.dname].shape
-        if close:
-            self.h5close()
+        try:
+            shape = self.h5file[self.dname].shape
+        finally:
+            if close:
+                self.h5close()
 
         return shape
 
@@ -538,11 +540,11 @@ or an integer nt (number of time steps).'
 
     # ----------------------------------------------------------------------- #
 
-    def h5open(self):
+    def h5open(self, mode='a'):
         """
-        open hdf5 file
+        open hdf5 file (readers only need mode='r')
         """
-        self.h5file = h5py.File(self.h5path, 'a')
+        self.h5file = h5py.File(self.h5path, mode)
         self._open = True
 
     def h5close(self):
@@ -690,18 +692,18 @@ or an integer nt (number of time steps).'
         """
         # open h5 file
         if not self._open:
-            self.h5open()
+            self.h5open('r')
             close = True
         else:
             close = False
 
-        # open h5 file
-        output = self.h5data[self._tslice(tslice),
-                             self._tuple2slice(vname, vslice)]
-
-        # close h5 file
-        if close:
-            self.h5close()
+        # read, and close h5 file
+        try:
+            output = self.h5data[self._tslice(tslice),
+                                 self._tuple2slice(vname, vslice)]
+        finally:
+            if close:
+                self.h5close()
 
         return output
 
@@ -736,17 +738,17 @@ or an integer nt (number of time steps).'
 
         # open h5 file
         if not self._open:
-            self.h5open()
+            self.h5open('r')
             close = True
         else:
             close = False
 
-        # open h5 file
-        output = getattr(self, pname)(tslice=tslice, vslice=vslice)
-
-        # close h5 file
-        if close:
-            self.h5close()
+        # process, and close h5 file
+        try:
+            output = getattr(self, pname)(tslice=tslice, vslice=vslice)
+        finally:
+            if close:
+                self.h5close()
 
         return output
 
@@ -837,7 +839,7 @@ or an integer nt (number of time steps).'
         """
 
         if not self._open:
-            self.h5open()
+            self.h5open('r')
             close = True
         else:
             close = False
@@ -847,16 +849,17 @@ or an integer nt (number of time steps).'
 
         tslice = self._tslice(tslice)
         arrays = []
-        for name in names:
-            array = self[name, tslice]
-            if len(array.shape) < 2:
-                array = array[:, numpy.newaxis]
-            arrays.append(array)
+        try:
+            for name in names:
+                array = self[name, tslice]
+                if len(array.shape) < 2:
+                    array = array[:, numpy.newaxis]
+                arrays.append(array)
+        finally:
+            if close:
+                self.h5close()
         output = numpy.hstack(arrays)[:, vslice]
 
-        if close:
-            self.h5close()
-
         if postprocess is None:
             return output
         else:
@@ -866,12 +869,6 @@ or an integer nt (number of time steps).'
 
         tslice = self._tslice(tslice)
 
-        if not self._open:
-            self.h5open()
-            close = True
-        else:
-            close = False
-
         if vslice is None:
             vslice = slice(None, None, None)
 
@@ -897,9 +894,6 @@ or an integer nt (number of time steps).'
         if not numpy.prod(output.shape):
             output = numpy.zeros((expectedNt, 0))
 
-        if close:
-            self.h5close()
-
         # Apply postprocess
         if postprocess is None:
             return output
@@ -1040,18 +1034,9 @@ or an integer nt (number of time steps).'
         x, dx
         """
 
-        if not self._open:
-            self.h5open()
-            close = True
-        else:
-            close = False
-
         output = self.dx(tslice=tslice, vslice=vslice,
                          postprocess=lambda dx: dx*self.fs)
 
-        if close:
-            self.h5close()
-
         if postprocess is None:
             return output
         else:
@@ -1188,7 +1173,7 @@ or an integer nt (number of time steps).'
         """
         # close flag
         if not self._open:
-            self.h5open()
+            self.h5open('r')
             close = True
         else:
             close = False
@@ -1200,18 +1185,19 @@ or an integer nt (number of time steps).'
             path = self.config['path'] + os.sep + name + str(index)
 
         # recover signal
-        sig = getattr(self, name)(vslice=index,
-                                  tslice=slice(self.start, self.stop, 1),
-                                  postprocess=lambda e: gain*e)
+        try:
+            sig = getattr(self, name)(vslice=index,
+                                      tslice=slice(self.start, self.stop, 1),
+                                      postprocess=lambda e: gain*e)
+        # close flag
+        finally:
+            if close:
+                self.h5close()
 
         # write .wav file
         wavwrite(sig, self.fs, path,
                  fs_out=fs, normalize=normalize, timefades=timefades)
 
-        # close flag
-        if close:
-            self.h5close()
-
     # ----------------------------------------------------------------------- #
 
     def plot_powerbal(self, mode='single', DtE='deltaH',
@@ -1251,7 +1237,7 @@ or an integer nt (number of time steps).'
         tslice = self._tslice(tslice)
 
         if not self._open:
-            self.h5open()
+            self.h5open('r')
             close = True
         else:
             close = False
@@ -1259,11 +1245,12 @@ or an integer nt (number of time steps).'
         if tslice.step is None:
             tslice.step = max((1, (self.stop-self.start)//self.ntplot))
 
-        fig, ax = plot_powerbal(self, mode=mode, DtE=DtE,
-                                show=show, tslice=tslice)
-
-        if close:
-            self.h5close()
+        try:
+            fig, ax = plot_powerbal(self, mode=mode, DtE=DtE,
+                                    show=show, tslice=tslice)
+        finally:
+            if close:
+                self.h5close()
 
         return fig, ax
     # ----------------------------------------------------------------------- #
@@ -1300,7 +1287,7 @@ or an integer nt (number of time steps).'
 
         """
         if not self._open:
-            self.h5open()
+            self.h5open('r')
             close = True
         else:
             close = False
@@ -1314,10 +1301,11 @@ or an integer nt (number of time steps).'
                 tslice.stop,
                 max((1, (self.stop-self.start)//self.ntplot)))
 
-        fig, ax = plot(self, vars, show=show, label=label, tslice=tslice)
-
-        if close:
-            self.h5close()
+        try:
+            fig, ax = plot(self, vars, show=show, label=label, tslice=tslice)
+        finally:
+            if close:
+                self.h5close()
 
         return fig, ax
 
@@ -1380,12 +1368,6 @@ or an integer nt (number of time steps).'
             i-start % step == 0).
         """
 
-        if not self._open:
-            self.h5open()
-            close = True
-        else:
-            close = False
-
         tslice = self._tslice(tslice)
 
         # Compute DtE = (h[x[n+1]]-h[x[n]]) / dt
@@ -1402,9 +1384,6 @@ or an integer nt (number of time steps).'
                                   self['dxH', tslice],
                                   self['dtx', tslice])
 
-        if close:
-            self.h5close()
-
         if postprocess is None:
             return output
         else:
@@ -1499,19 +1478,10 @@ or an integer nt (number of time steps).'
             i-start % step == 0), with ps[i] = u[i] dot y[i].
         """
 
-        if not self._open:
-            self.h5open()
-            close = True
-        else:
-            close = False
-
         output = numpy.einsum('ti,ti->t',
                               self['u', tslice],
                               self['y', tslice])
 
-        if close:
-            self.h5close()
-
         if postprocess is None:
             return output
         else:
-- 
2.43.0


From c32dd5dcdc34d403afd2fbd925634b472baa35f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 08/29] fix: release the results file when a simulation is
 interrupted

An exception (e.g. a KeyboardInterrupt) in init or process left the file opened
for writing, so that the steps already computed could not be read by others.
---
 pyphs/numerics/simulations/h5data/h5data.py | 15 ++++++++-------
 pyphs/numerics/simulations/simulation.py    | 12 +++++++++---
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 4e9d9c7..d7c3dad 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -373,14 +373,15 @@ or an integer nt (number of time steps).'
         # Open h5 file
         self.h5open()
 
-        # Init h5 dataset shape
-        self.h5file[self.dname].resize((nt, self.dim))
-
-        # dump seqs on times [0:nt-1]
-        self.h5dump_seqs(seqs, slice(0, nt))
+        try:
+            # Init h5 dataset shape
+            self.h5file[self.dname].resize((nt, self.dim))
 
-        # Close h5 file
-        self.h5close()
+            # dump seqs on times [0:nt-1]
+            self.h5dump_seqs(seqs, slice(0, nt))
+        finally:
+            # Close h5 file
+            self.h5close()
 
     # ----------------------------------------------------------------------- #
 
diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 36dbae5..5e78a06 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -436,10 +436,18 @@ class Simulation(object):
 
     def _process_py(self):
 
+        # open the results file, and release it whatever happens
+        self.data.h5open()
+        try:
+            self._process_py_steps()
+        finally:
+            self.data.h5close()
+
+    def _process_py_steps(self):
+
         # get values for u and p
         data = self.data
         tslice = slice(0, None, 1)
-        data.h5open()
         seq_u = data.u(tslice=tslice)
         seq_p = data.p(tslice=tslice)
 
@@ -475,8 +483,6 @@ class Simulation(object):
 
         time.sleep(1e-3)
 
-        data.h5close()
-
     def _process_cpp(self):
 
         # build simu.cpp
-- 
2.43.0


From 5e6f029af930727eb592826aa3e92942e3c6f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 09/29] fix: process every time step whatever the reading
 window

A previous value of data.stop (a load option of the readers) silently shortened
the next python simulation.
---
 pyphs/numerics/simulations/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 5e78a06..188aebc 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -447,7 +447,7 @@ class Simulation(object):
 
         # get values for u and p
         data = self.data
-        tslice = slice(0, None, 1)
+        tslice = slice(0, data.nt, 1)
         seq_u = data.u(tslice=tslice)
         seq_p = data.p(tslice=tslice)
 
-- 
2.43.0


From 74d36d5d70217d27a6814799c5ddc859c95c5f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:23 +0000
Subject: [PATCH 10/29] fix: do not shift the state twice in the structure of
 split methods

With split=True the theta (or trapezoidal) evaluation of M and z was applied
before and after the implicit/explicit partition, so that M(x+theta*dx) became
M(x+2*theta*dx).
---
 pyphs/numerics/numerical_method/_method.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 9195922..bef2260 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -155,8 +155,7 @@ class Method(Core):
                 print('    Re-Build numerical structure...')
             # build the discrete evaluation for the gradient
             build_gradient_evaluation(self)
-            # build the discrete evaluation for the structure
-            build_structure_evaluation(self)
+            # the structure is already evaluated (do not shift x again)
             # build method updates
             set_structure(self)
 
-- 
2.43.0


From e8bb658a61218e069970fe8bea6bc0817c196ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:55 +0000
Subject: [PATCH 11/29] fix: keep component indices inside the variable that is
 read

A negative or too large vslice silently returned components of a neighbouring
variable in the results file.
---
 pyphs/numerics/simulations/h5data/h5data.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index d7c3dad..88e028b 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -664,26 +664,21 @@ or an integer nt (number of time steps).'
         return slice in the data from item specifier
         """
 
+        # indices of the variable components in the global dataset
+        inds = range(*self.inds[vname])
+
         # read variable slice from data object indices
         if vslice is None:
             vslice = slice(*self.inds[vname])
 
         # convert index in var to index in global dataset
         elif isinstance(vslice, int):
-            vslice += self.inds[vname][0]
+            vslice = inds[vslice]
 
         # custom variable slice
         else:
-            if vslice.start is not None:
-                start = vslice.start+self.inds[vname][0]
-            else:
-                start = self.inds[vname][0]
-            if vslice.stop is not None:
-                stop = vslice.stop+self.inds[vname][0]
-            else:
-                stop = self.inds[vname][1]
-            step = vslice.step
-            vslice = slice(start, stop, step)
+            inds = inds[vslice]
+            vslice = slice(inds.start, inds.stop, inds.step)
 
         return vslice
 
-- 
2.43.0


From d90f91d6b963bcb3da2eadd84c14f65a20f4314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:55 +0000
Subject: [PATCH 12/29] fix: allow resetting data.tstart to None

---
 pyphs/numerics/simulations/h5data/h5data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 88e028b..7610fdb 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -219,7 +219,7 @@ class H5Data(object):
             if not isinstance(t, (int, float)):
                 text = 'tstart must be a positive value: %s.' % str(t)
                 raise ValueError(text)
-        self.start = self._time2index(t, m='min')
+            self.start = self._time2index(t, m='min')
 
     # tstart: start = tstart*fs and slice for t is slice(start, stop, step)
     tstart = property(_get_tstart, _set_tstart)
-- 
2.43.0


From c2dfa68edac059c94b217512c3571c52d00b99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:19 +0000
Subject: [PATCH 13/29] fix: evaluate observers and the energies of models with
 observers

data.o() returned unevaluated iterables, so that E, pd and the power balance
failed for every model with observers.
---
 pyphs/numerics/simulations/h5data/h5data.py | 15 ++++++++++++++-
 pyphs/numerics/tools/_evaluation.py         |  4 ++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 7610fdb..951f91d 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -870,6 +870,10 @@ or an integer nt (number of time steps).'
 
         expectedNt = len(range(tslice.start, tslice.stop, tslice.step))
 
+        # components of a vector are selected below
+        if name == 'o':
+            vslice, oslice = slice(None, None, None), vslice
+
         evalobj = self.method.to_evaluation(names=[name], vslice=vslice)
 
         # cope with functions that have no arguments (see Evaluation object)
@@ -884,12 +888,21 @@ or an integer nt (number of time steps).'
         else:
             args = numpy.zeros((expectedNt, 1))
 
-        output = numpy.array(tuple(getattr(evalobj, name)(*args.T)))
+        output = tuple(getattr(evalobj, name)(*args.T))
+
+        # a vector renders one iterable over time per component
+        if name == 'o':
+            output = list(zip(*output))
+
+        output = numpy.array(output)
 
         # Reshape if output is 0 dimensional
         if not numpy.prod(output.shape):
             output = numpy.zeros((expectedNt, 0))
 
+        if name == 'o':
+            output = output[:, oslice]
+
         # Apply postprocess
         if postprocess is None:
             return output
diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index 59105eb..643b872 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -62,10 +62,10 @@ class Evaluation(object):
             print('Build numerical evaluations...')
 
         self.core = core.__copy__()
-        self.core.o = list(self.core.observers.values())
-
         self.core.substitute(selfall=True)
 
+        self.core.o = list(self.core.observers.values())
+
         if names in ['all', None]:
             names = self.core.exprs_names
             names = names.union(self.core.struc_names)
-- 
2.43.0


From 50c4a4a7e99167d5d8e26bae9a642d414bb0c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:49 +0000
Subject: [PATCH 14/29] fix: do not write the sample rate into the method
 shared by simulations

Numeric stored its sample rate in method.subs, so that a method used at two
sample rates (or in two threads) evaluated its functions and observers with the
rate of the last numerical core built, and the exports of the method changed
once it had been evaluated.
---
 pyphs/numerics/numerical_core/_numerical_core.py | 7 +++++--
 pyphs/numerics/simulations/h5data/h5data.py      | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyphs/numerics/numerical_core/_numerical_core.py b/pyphs/numerics/numerical_core/_numerical_core.py
index cf3013f..accb422 100644
--- a/pyphs/numerics/numerical_core/_numerical_core.py
+++ b/pyphs/numerics/numerical_core/_numerical_core.py
@@ -57,7 +57,10 @@ class Numeric(object):
             if k not in self.config.keys():
                 raise AttributeError('Unknown parameter {}.'.format(k))
         self.config.update(config)
-        self.method.subs.update({self.method.fs: self.config['fs']})
+
+        # substitutions for this sample rate (the method may be used elsewhere)
+        self.subs = self.method.subs.copy()
+        self.subs.update({self.method.fs: self.config['fs']})
 
         # Define inits
         self.inits = {}
@@ -267,7 +270,7 @@ def evalfunc_generator(nums, name):
         symbs = free_symbols(expr)
         args, inds = find(symbs, nums.method.args())
 
-    func = lambdify(args, expr, subs=nums.method.subs,
+    func = lambdify(args, expr, subs=nums.subs,
                     theano=nums.config['theano'])
 
     if len(inds) > 0:
diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 951f91d..d57f745 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -874,7 +874,10 @@ or an integer nt (number of time steps).'
         if name == 'o':
             vslice, oslice = slice(None, None, None), vslice
 
-        evalobj = self.method.to_evaluation(names=[name], vslice=vslice)
+        # evaluate with the sample rate of these data
+        core = self.method.__copy__()
+        core.subs = self.subs
+        evalobj = core.to_evaluation(names=[name], vslice=vslice)
 
         # cope with functions that have no arguments (see Evaluation object)
         if name == 'o':
-- 
2.43.0


From 936d2a17c8672260ed4ee61db08380885ef04cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:50 +0000
Subject: [PATCH 15/29] fix: a failing Simulation.init leaves the simulation
 usable

The configuration, initial values and substitutions of a failing call were kept
although the numerical core had not been rebuilt, so that a following valid call
worked with a mixture of both.
---
 pyphs/numerics/simulations/simulation.py | 33 +++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 188aebc..5c3f863 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -178,6 +178,9 @@ class Simulation(object):
         if inits is not None:
             self.inits.update(inits)
 
+        # True if a previous initialization failed
+        self._rebuild = False
+
         self.init_numericalCore(erase=erase)
 
     @property
@@ -298,7 +301,34 @@ class Simulation(object):
         with dim(x) = 3, x[0] = x[1] = 0 and x[2] = 1.
         """
 
-        init_numeric = False
+        # settings before the changes
+        config_init = self.config.copy()
+        inits_init = self.inits.copy()
+        method_init = self.method
+        subs_init = self.method.subs.copy()
+
+        try:
+            self._init(nt, u, p, inits, config, subs)
+
+        except BaseException:
+            # forget the changes, and rebuild on next initialization
+            for k in config_init:
+                if k not in ('nt', 'load'):
+                    self.config[k] = config_init[k]
+            self.inits = inits_init
+            self.method = method_init
+            self.method.subs.clear()
+            self.method.subs.update(subs_init)
+            self._rebuild = True
+            raise
+
+    def _init(self, nt=None, u=None, p=None,  inits=None,
+              config=None, subs=None):
+        """
+        Apply the changes and initialize the simulation data (see init).
+        """
+
+        init_numeric = self._rebuild
         init_parameters = False
 
         if config is None:
@@ -343,6 +373,7 @@ class Simulation(object):
 
         if init_numeric:
             self.init_numericalCore()
+            self._rebuild = False
         elif self.config['lang'] == 'python':
             # restart from initial values, as the c++ executable does
             self.nums.args[:] = 0.
-- 
2.43.0


From f6ba8b5a6fa4ca8790a24a55710b9ee422573fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:20 +0000
Subject: [PATCH 16/29] fix: compare and keep complete initial values in
 Simulation.init

Values of another length or None were compared on the common prefix only (or
raised), and the arrays of the caller were kept by reference.
---
 pyphs/numerics/simulations/simulation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 5c3f863..3f37458 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -14,6 +14,7 @@ from .. import Numeric
 from .h5data import H5Data
 from pyphs.misc.tools import geteval
 
+import copy
 import subprocess
 import progressbar
 import time
@@ -176,7 +177,7 @@ class Simulation(object):
         # Define inits
         self.inits = {}
         if inits is not None:
-            self.inits.update(inits)
+            self.inits.update(copy.deepcopy(inits))
 
         # True if a previous initialization failed
         self._rebuild = False
@@ -359,11 +360,18 @@ class Simulation(object):
             equal = True
             for k in inits.keys():
                 try:
-                    equal = all(v == s for (v,s) in zip(inits[k], self.inits[k])) and equal
+                    new, old = inits[k], self.inits[k]
                 except KeyError:
                     equal = False
+                    continue
+                if new is None or old is None:
+                    equal = new is old and equal
+                else:
+                    equal = (len(new) == len(old) and
+                             all(v == s for (v, s) in zip(new, old)) and
+                             equal)
             if not equal:
-                self.inits.update(inits)
+                self.inits.update(copy.deepcopy(inits))
                 init_numeric = True
 
         if any([self.config[k] != c[k] for k in c.keys()]):
-- 
2.43.0


From 78791dddd86a8c26ee076d53cc1997643a1afc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:32 +0000
Subject: [PATCH 17/29] fix: do not add initial values to the caller's
 dictionary in method2cpp

---
 pyphs/numerics/cpp/method2cpp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index bbeae21..5204284 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -118,6 +118,9 @@ def method2cpp(method, objlabel=None, path=None,
 
     if inits is None:
         inits = {}
+    else:
+        # do not complete the dictionary of the caller
+        inits = dict(inits)
 
     if config is None:
         config = {}
-- 
2.43.0


From a8110d53c41653042ec584120fa9ed45bea32cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:31 +0000
Subject: [PATCH 18/29] fix: compiled simulation ended with status 0 when its
 results could not be written

---
 pyphs/templates/cpp/simu_main.template | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyphs/templates/cpp/simu_main.template b/pyphs/templates/cpp/simu_main.template
index e50c337..5d460bd 100644
--- a/pyphs/templates/cpp/simu_main.template
+++ b/pyphs/templates/cpp/simu_main.template
@@ -176,8 +176,10 @@ int main() {
     }
 
     //==========================================================================
-    // Close h5file
+    // Close dataset (the buffered rows are written here, and an error is
+    // reported) and h5file
 
+    Gdataset.close();
     h5fid.close();
 
     //==========================================================================
-- 
2.43.0


From 08d47012d728da71b1ad30b315bfaa8f5ee8e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:15 +0000
Subject: [PATCH 19/29] fix: a core is saved in a new database that replaces
 the previous one

A failed or interrupted save damaged the previous one, could make later saves
fail or return normally without having written the core; loading created an
empty database.
---
 pyphs/core/core.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 912a404..9d7d851 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -217,8 +217,19 @@ class Core:
             obj = getattr(source, attr_name)
             dico[attr_name] = obj
 
-        with shelve.open(path) as database:
+        # Write a new database beside the previous one, then replace it, so
+        # that a failure does not damage what was saved before.
+        temp = path + '.tmp'
+        with shelve.open(temp, flag='n') as database:
             database['core'] = dico
+        # Errors met when the database is closed are not reported: read back.
+        with shelve.open(temp, flag='r') as database:
+            if database.get('core') is None:
+                raise IOError('Could not write {0}'.format(path))
+        for name in os.listdir(folder):
+            if name.startswith(filename + '.tmp'):
+                extension = name[len(filename + '.tmp'):]
+                os.rename(os.path.join(folder, name), path + extension)
 
         if VERBOSE > 0:
             print('Core {0} saved in {1}'.format(self.label, path))
@@ -254,7 +265,7 @@ class Core:
         filename = '{0}.{1}'.format(label, 'phs')
         path = os.path.join(folder, label, filename)
 
-        with shelve.open(path) as database:
+        with shelve.open(path, flag='r') as database:
             dico = database['core']
 
         self.label = copy.copy(dico['label'])
-- 
2.43.0


From 49ae31044aac5317ab30f4c4608a59cac30261c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:00 +0000
Subject: [PATCH 20/29] fix: read back string arguments that a netlist wrote
 without quotes

---
 pyphs/graphs/netlists.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index 0558df4..696d0ed 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -140,7 +140,7 @@ components).
                         else:
                             try:
                                 value = ast.literal_eval(value)
-                            except ValueError:
+                            except (ValueError, SyntaxError):
                                 pass
                         pars.update({key: value})
                     self.arguments = list(self.arguments)+[pars, ]
-- 
2.43.0


From ec791c8d3e78a6b348a0cc928af312175b33d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:27 +0000
Subject: [PATCH 21/29] fix: release the netlist file when writing it fails

The file kept data of the failed write and wrote it over the content of a
later, successful write when it was finalized.
---
 pyphs/graphs/netlists.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index 696d0ed..19777d2 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -160,9 +160,8 @@ components).
         """
         if path is None:
             path = self.path
-        file_ = open(path, 'w')
-        file_.write(self.netlist())  # remove the last cariage return
-        file_.close()
+        with open(path, 'w') as file_:
+            file_.write(self.netlist())  # remove the last cariage return
 
     def line(self, n):
         """
-- 
2.43.0


From 5fa4241d6479e5508086548bf37eaccaa7e1f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 22/29] fix: create the results folder given to Simulation.init

The folder given at instanciation is created if it does not exist, but
init(config={'path': ...}) raised for a new folder.
---
 pyphs/numerics/simulations/simulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 3f37458..50af2bc 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -168,12 +168,6 @@ class Simulation(object):
         # Rebuild method if parameters are differents
         self.init_method()
 
-        if self.config['path'] is None:
-            self.config['path'] = os.getcwd()
-
-        if not os.path.exists(self.config['path']):
-            os.mkdir(self.config['path'])
-
         # Define inits
         self.inits = {}
         if inits is not None:
@@ -230,6 +224,12 @@ class Simulation(object):
             The default is True.
 
         """
+        if self.config['path'] is None:
+            self.config['path'] = os.getcwd()
+
+        if not os.path.exists(self.config['path']):
+            os.mkdir(self.config['path'])
+
         self.cpp_path = os.path.join(main_path(self),
                                      self.objlabel.lower())
         self.work_path = os.getcwd()
-- 
2.43.0


From 783d776cb006f28d71245e9fe9087f54351c9958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 23/29] fix: refuse input and parameter sequences with a wrong
 number of columns

The elements of too wide sequences were silently scattered over the rows of the
stored inputs (one dimensional sequences were already checked).
---
 pyphs/numerics/simulations/h5data/h5data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index d57f745..b9e3410 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -353,6 +353,9 @@ or an integer nt (number of time steps).'
                 raise AttributeError(text.format(nt, ny, sequ.shape))
             else:
                 sequ = sequ[:, numpy.newaxis]
+        elif not sequ.shape[1] == ny:
+            text = 'Expected input shape is ({}, {}), got {}'
+            raise AttributeError(text.format(nt, ny, sequ.shape))
 
         # if seqp is not provided, a sequence of [[0]*np]*nt is assumed
         np = self.method.dims.p()
@@ -366,6 +369,9 @@ or an integer nt (number of time steps).'
                 raise AttributeError(text.format(nt, np, seqp.shape))
             else:
                 seqp = seqp[:, numpy.newaxis]
+        if len(seqp) and not seqp.shape[1:] == (np, ):
+            text = 'Expected parameter shape is ({}, {}), got {}'
+            raise AttributeError(text.format(nt, np, seqp.shape))
 
         # data to store in h5 dataset
         seqs = {'u': sequ, 'p': seqp}
-- 
2.43.0


From 7a2a1424313e38f193d846640ad2431b798aa23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 24/29] fix: restore the C++ type of real numbers after a Juce
 export

method2jucefx switched the shared configuration to single precision for every
C++ generation of the program that followed.
---
 pyphs/misc/juce/_fx.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyphs/misc/juce/_fx.py b/pyphs/misc/juce/_fx.py
index 29cae8a..67dfb66 100644
--- a/pyphs/misc/juce/_fx.py
+++ b/pyphs/misc/juce/_fx.py
@@ -107,10 +107,15 @@ def method2jucefx(method, objlabel=None, io=None, inits=None, params=None,
 
     objlabel = method.label.lower()
     cppfolder = os.path.join(path, method.label + '_Sources')
+    cppfloat = CONFIG_CPP['float']
     CONFIG_CPP['float'] = 'float'
-    method.to_cpp(objlabel=objlabel, path=cppfolder,
-                  inits=inits,
-                  config=config)
+    try:
+        method.to_cpp(objlabel=objlabel, path=cppfolder,
+                      inits=inits,
+                      config=config)
+    finally:
+        # the configuration is shared with every other C++ generation
+        CONFIG_CPP['float'] = cppfloat
     snippetsfolder = os.path.join(path, method.label + '_Juce_Snippets')
     parametersFloats = audioParametersFloats(method, indices_inputs,
                                              indices_outputs, params)
-- 
2.43.0


From 55d470a5f30c86bae811726cd83b9d51187c4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 25/29] fix: do not complete the initial values of the caller
 in a Faust export

---
 pyphs/misc/faust/_faust.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyphs/misc/faust/_faust.py b/pyphs/misc/faust/_faust.py
index 4959127..bca6e1a 100644
--- a/pyphs/misc/faust/_faust.py
+++ b/pyphs/misc/faust/_faust.py
@@ -177,6 +177,9 @@ def write_faust_fx(method, path=None, inputs=None, outputs=None, inits=None,
     # initializations
     if inits is None:
         inits = {}
+    else:
+        # do not complete the dictionary of the caller
+        inits = dict(inits)
     for name in ('x', 'dx', 'w', 'u', 'o', 'p'):
         if name not in inits.keys():
             inits[name] = [0., ]*len(geteval(method, name))
-- 
2.43.0


From b46cd92fd341ab138db51deb59f6628c1a6553df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 26/29] fix: bound Faust simplifications by their number, not
 by the clock

The generated code depended on the speed of the machine, and a clock adjusted
during the export left the expressions without simplification.
---
 pyphs/misc/faust/_faust.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyphs/misc/faust/_faust.py b/pyphs/misc/faust/_faust.py
index bca6e1a..1bd144a 100644
--- a/pyphs/misc/faust/_faust.py
+++ b/pyphs/misc/faust/_faust.py
@@ -13,20 +13,23 @@ import sympy as sp
 from pyphs.core.tools import simplify
 from pyphs.misc.tools import geteval
 from pyphs.config import VERBOSE
-import time
 from ._method_invmat import MethodInvMat
 import os
 import string
 
 here = os.path.realpath(__file__)[:os.path.realpath(__file__).rfind(os.sep)]
 
+# Maximum number of successive simplifications of an expression
+MAXSIMPLIFY = 10
+
 
 def faust_expr(name, args, expr, subs):
     previous_expr = sp.sympify(0.)
-    start = time.time()
-    while previous_expr != expr and time.time()-start < 10:
+    it = 0
+    while previous_expr != expr and it < MAXSIMPLIFY:
         previous_expr = expr
         expr = simplify(previous_expr)
+        it += 1
     code = '\n' + \
         name + " = \(" + \
         ('{}, '*len(args)).format(*map(str, args))[:-2] + ').('
-- 
2.43.0


From 79cd0c4d73db3a14175a114b0c444abfe55491a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 27/29] fix: release the C++ source files when writing them
 fails

A file left open after an error could write its pending content later, over the
sources generated meanwhile.
---
 pyphs/numerics/cpp/cmake.py              |  5 ++---
 pyphs/numerics/cpp/method2cpp.py         | 10 ++++------
 pyphs/numerics/simulations/simulation.py |  5 ++---
 3 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pyphs/numerics/cpp/cmake.py b/pyphs/numerics/cpp/cmake.py
index 3e31e0f..ca8a42a 100644
--- a/pyphs/numerics/cpp/cmake.py
+++ b/pyphs/numerics/cpp/cmake.py
@@ -22,9 +22,8 @@ def cmake_write(project_name, path):
         Path to the directory where the build shall be made.
     """
     filepath = os.path.join(path, 'CMakeLists.txt')
-    f = open(filepath, 'w+')
-    f.write(_template(project_name))
-    f.close()
+    with open(filepath, 'w+') as f:
+        f.write(_template(project_name))
     return filepath
 
 
diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index 5204284..0da1e7d 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -230,9 +230,8 @@ def method2cpp(method, objlabel=None, path=None,
         string += indent(files[e]['private'])
         string += files[e]['closing']
 
-        _file = open(filename, 'w')
-        _file.write(string)
-        _file.close()
+        with open(filename, 'w') as _file:
+            _file.write(string)
 
     if subs is None:
         subs = method.subs
@@ -243,9 +242,8 @@ def method2cpp(method, objlabel=None, path=None,
         if VERBOSE >= 1:
             print('    Write {}'.format(filename))
         string = parameters_files[e]
-        _file = open(filename, 'w')
-        _file.write(string)
-        _file.close()
+        with open(filename, 'w') as _file:
+            _file.write(string)
 
 
 ###############################################################################
diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 50af2bc..5fdf874 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -402,9 +402,8 @@ class Simulation(object):
         for e in ['cpp', 'h']:
             filename = os.path.join(path, 'parameters.{0}'.format(e))
             string = parameters_files[e]
-            _file = open(filename, 'w')
-            _file.write(string)
-            _file.close()
+            with open(filename, 'w') as _file:
+                _file.write(string)
         if VERBOSE >= 2:
             print('Parameters Files generated in \n{}'.format(path))
 
-- 
2.43.0


From c38674df07ecf00a28386e2d6d6f946773cb2170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 28/29] fix: close the wave file when writing it fails

---
 pyphs/misc/signals/waves.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyphs/misc/signals/waves.py b/pyphs/misc/signals/waves.py
index 7efd7cd..a33484b 100644
--- a/pyphs/misc/signals/waves.py
+++ b/pyphs/misc/signals/waves.py
@@ -80,7 +80,9 @@ list or a generator. Got {0!s}'.format(type(sig))
     else:
         scale = 1.
     print('Write wave file...')
-    for i, val in enumerate(sig):
-        data = int(_maxVol*val/scale)
-        wv.writeframes(pack('h', data))
-    wv.close()
+    try:
+        for i, val in enumerate(sig):
+            data = int(_maxVol*val/scale)
+            wv.writeframes(pack('h', data))
+    finally:
+        wv.close()
-- 
2.43.0


From a84a6b03b1ef3fb2bc783a372b5f0e53401e1821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:33 +0000
Subject: [PATCH 29/29] fix: discrete gradient of linear components coupled
 with nonlinear ones

The split of the components into resolved and implicit ones was also used
to choose the formula of their discrete gradient. The energy that couples
a linear component with a nonlinear one was evaluated at the start of the
step, and a nonlinear component that does not enter the implicit equations
was linearised, so that the power balance did not hold for them.
---
 pyphs/numerics/numerical_method/_method.py | 41 +++++++++++++++++-----
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index bef2260..9138fb4 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -9,7 +9,8 @@ Created on Wed Dec 28 11:13:24 2016
 from __future__ import absolute_import, division, print_function
 
 import sympy as sp
-from pyphs.core.maths import matvecprod, jacobian, sumvecs
+from pyphs.core.maths import (matvecprod, jacobian, sumvecs, gradient,
+                              hessian)
 from pyphs.core.tools import free_symbols, types
 from pyphs.config import CONFIG_METHOD, VERBOSE, FS_SYMBS
 from pyphs.misc.tools import geteval, find, get_strings, remove_duplicates
@@ -687,27 +688,49 @@ dictionary.
         # discrete gradient
         mtype = types.matrix_types[0]
 
+        # The split of the components tells whether the update is implicit.
+        # Here, linear components are the ones with constant hessian that are
+        # not coupled with the others.
+        x, dx = method.x, method.dx()
+        hess = hessian(method.H, x)
+        lin = [i for i in range(method.dims.xl())
+               if free_symbols(list(hess[:, i])).isdisjoint(x)]
+        coupled = True
+        while coupled:
+            others = [j for j in range(len(x)) if j not in lin]
+            coupled = [i for i in lin if any(hess[i, j] != 0 for j in others)]
+            lin = [i for i in lin if i not in coupled]
+        mono = [i for i in others
+                if all(hess[i, j] == 0 for j in range(len(x)) if j != i)]
+        multi = [i for i in others if i not in mono]
+
+        def select(seq, inds):
+            return [seq[i] for i in inds]
+
+        # linear
         dxHl = list(
-            mtype(method.Q)*(
-                mtype(method.xl()) + 0.5*mtype(method.dxl())) +
-            mtype(method.bl)
+            mtype(hess)[lin, lin]*(
+                mtype(select(x, lin)) + 0.5*mtype(select(dx, lin))) +
+            mtype(select(sumvecs(gradient(method.H, x),
+                                 [-e for e in matvecprod(hess, x)]), lin))
             )
         # monovariate
         dxHnl_sep = discrete_gradient_monovar(
             method.H,
-            method.xnl()[:method.dims.xnl_mono()],
-            method.dxnl()[:method.dims.xnl_mono()],
+            select(x, mono),
+            select(dx, mono),
             method.config['epsdg']
             )
         # multivariate
         dxHnl_nonsep = discrete_gradient_multivar(
             method.H,
-            method.xnl()[method.dims.xnl_mono():],
-            method.dxnl()[method.dims.xnl_mono():],
+            select(x, multi),
+            select(dx, multi),
             method.config['epsdg']
             )
 
-        method._dxH = list(dxHl) + dxHnl_sep + dxHnl_nonsep
+        dxH = dict(zip(lin + mono + multi, dxHl + dxHnl_sep + dxHnl_nonsep))
+        method._dxH = [dxH[i] for i in range(len(x))]
 
     elif method.config['grad'] == 'theta':
         # theta scheme
-- 
2.43.0

