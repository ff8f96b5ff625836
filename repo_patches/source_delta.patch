From d09696964d1966c30ab032d20f3bc5dd65bb996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:45 +0000
Subject: [PATCH 01/65] fix: Container tags stay unique and extend() accepts
 lists

---
 trunk/SUAVE/Core/Container.py        | 5 +++--
 trunk/SUAVE/Core/ContainerOrdered.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Core/Container.py b/trunk/SUAVE/Core/Container.py
index b15b2ef..e1db1e8 100644
--- a/trunk/SUAVE/Core/Container.py
+++ b/trunk/SUAVE/Core/Container.py
@@ -110,7 +110,8 @@ class Container(Data):
             val.tag = tag + str(n_comps+1)
             
             # Check again, because theres an outside chance that its duplicate again. Then assign a random
-            if val.tag in keys:
+            while val.tag in keys:
+                n_comps += 1
                 val.tag = tag + str(n_comps+random.randint(0,1000))
         
         Data.append(self,val)
@@ -134,7 +135,7 @@ class Container(Data):
             N/A
         """         
         if isinstance(vals,(list,tuple)):
-            for v in val: self.append(v)
+            for v in vals: self.append(v)
         elif isinstance(vals,dict):
             self.update(vals)
         else:
diff --git a/trunk/SUAVE/Core/ContainerOrdered.py b/trunk/SUAVE/Core/ContainerOrdered.py
index 706c4f6..12b3a6e 100644
--- a/trunk/SUAVE/Core/ContainerOrdered.py
+++ b/trunk/SUAVE/Core/ContainerOrdered.py
@@ -110,7 +110,7 @@ class ContainerOrdered(DataOrdered):
             N/A
             """          
         if isinstance(vals,(list,tuple)):
-            for v in val: self.append(v)
+            for v in vals: self.append(v)
         elif isinstance(vals,dict):
             self.update(vals)
         else:
-- 
2.43.0


From 07911c9dfc9f3d6c9595b4a05d5efd623510c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:46 +0000
Subject: [PATCH 02/65] fix: Analysis.Container.initialize iterates over its
 members

---
 trunk/SUAVE/Analyses/Analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Analyses/Analysis.py b/trunk/SUAVE/Analyses/Analysis.py
index 7b8dc27..c2a2cea 100644
--- a/trunk/SUAVE/Analyses/Analysis.py
+++ b/trunk/SUAVE/Analyses/Analysis.py
@@ -214,7 +214,7 @@ class Container(ContainerBase):
                 Properties Used:
                 N/A
             """                    
-        for tag,analysis in self.items:
+        for tag,analysis in self.items():
             if hasattr(analysis,'initialize'):
                 analysis.initialize(*args,**kwarg)
     
-- 
2.43.0


From 824264311dd5210b10fe6294dba430c599b1c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 03/65] fix: DataOrdered membership, item deletion and
 iteritems

---
 trunk/SUAVE/Core/DataOrdered.py | 43 ++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Core/DataOrdered.py b/trunk/SUAVE/Core/DataOrdered.py
index 92705bb..a2a53f5 100644
--- a/trunk/SUAVE/Core/DataOrdered.py
+++ b/trunk/SUAVE/Core/DataOrdered.py
@@ -570,6 +570,47 @@ class DataOrdered(OrderedDict):
         link_prev[1] = link_next
         link_next[0] = link_prev
         
+    def __delitem__(self, key):
+        """ An override of the standard __delitem__ in Python. This deletes whatever is called by key
+            
+            Assumptions:
+            N/A
+    
+            Source:
+            N/A
+    
+            Inputs:
+            key
+    
+            Outputs:
+            N/A
+    
+            Properties Used:
+            N/A    
+        """           
+        if key not in self: raise KeyError(key)
+        self.__delattr__(key)
+        
+    def __contains__(self, key):
+        """ This checks if there is an item stored under this key
+            
+            Assumptions:
+            N/A
+    
+            Source:
+            N/A
+    
+            Inputs:
+            key
+    
+            Outputs:
+            bool
+    
+            Properties Used:
+            N/A    
+        """           
+        return key in self.__dict__
+        
     def __eq__(self, other):
         """ This is overrides the Python function for checking for equality
             
@@ -955,7 +996,7 @@ class DataOrdered(OrderedDict):
             Properties Used:
             N/A    
         """          
-        for k in self.__iter():
+        for k in self.__iter_basic__():
             yield (k, self[k])   
 
 
-- 
2.43.0


From 6721f3af7ff51a2599bb44949c51bb30994cd9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 04/65] fix: copies of ordered containers keep every entry in
 order

---
 trunk/SUAVE/Core/DataOrdered.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Core/DataOrdered.py b/trunk/SUAVE/Core/DataOrdered.py
index a2a53f5..d0ba529 100644
--- a/trunk/SUAVE/Core/DataOrdered.py
+++ b/trunk/SUAVE/Core/DataOrdered.py
@@ -1020,5 +1020,6 @@ def _reconstructor(klass,items):
         N/A    
     """        
     self = DataOrdered.__new__(klass)
-    DataOrdered.__init__(self,items)
+    self.clear()
+    for k,v in items: self[k] = v
     return self
\ No newline at end of file
-- 
2.43.0


From 4484e5848c685846ff8f1b780a288bd8b05f734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 05/65] fix: configurations never share storage with their base
 or stored differences

---
 trunk/SUAVE/Core/Diffed_Data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Core/Diffed_Data.py b/trunk/SUAVE/Core/Diffed_Data.py
index 5db9c43..a6259ce 100644
--- a/trunk/SUAVE/Core/Diffed_Data.py
+++ b/trunk/SUAVE/Core/Diffed_Data.py
@@ -95,7 +95,7 @@ class Diffed_Data(Data):
             Properties Used:
             N/A    
         """          
-        delta = diff(self,self._base)
+        delta = deepcopy(diff(self,self._base))
         self._diff = delta
         
     def pull_base(self):
@@ -118,8 +118,8 @@ class Diffed_Data(Data):
         """          
         try: self._base.pull_base()
         except AttributeError: pass
-        self.update(self._base)
-        self.update(self._diff)
+        self.update(deepcopy(self._base))
+        self.update(deepcopy(self._diff))
     
     def __str__(self,indent=''):
         """ This function is used for printing the class.
@@ -334,7 +334,7 @@ def diff(A,B):
         elif isinstance(va,DataOrdered) or isinstance(vb,DataOrdered):
             result[key] = va        
 
-        elif not np.all(va == vb):
+        elif not (np.shape(va) == np.shape(vb) and np.all(va == vb)):
             result[key] = va
 
     return result    
\ No newline at end of file
-- 
2.43.0


From d326a7ebca77210848b29c8e2ab51422fc4f052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 06/65] fix: copies of a data container hold exactly its
 entries

---
 trunk/SUAVE/Core/Data.py | 46 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Core/Data.py b/trunk/SUAVE/Core/Data.py
index 4b8213e..14a6b61 100644
--- a/trunk/SUAVE/Core/Data.py
+++ b/trunk/SUAVE/Core/Data.py
@@ -796,6 +796,26 @@ class Data(dict):
         # done!
         return self     
     
+    def __reduce__(self):
+        """ This is used to copy and pickle the data, a copy holds the entries of the original and nothing else
+        
+            Assumptions:
+            N/A
+        
+            Source:
+            N/A
+        
+            Inputs:
+            N/A
+        
+            Outputs:
+            the class, attributes and entries
+        
+            Properties Used:
+            N/A
+        """           
+        return _reconstructor, (self.__class__,), (self.__dict__ or None), None, iter(dict.items(self))
+    
     def do_recursive(self,method,other=None,default=None):
         """ Recursively applies a method of the class.
     
@@ -851,4 +871,28 @@ class Data(dict):
         # do the update!
         do_operation(self,other,result)    
     
-        return result
\ No newline at end of file
+        return result
+
+
+## @ingroup Core
+def _reconstructor(klass):
+    """ An empty instance of a data class, without its default entries
+    
+        Assumptions:
+        N/A
+    
+        Source:
+        N/A
+    
+        Inputs:
+        klass
+    
+        Outputs:
+        instance
+    
+        Properties Used:
+        N/A
+    """        
+    self = klass.__new__(klass)
+    dict.clear(self)
+    return self
-- 
2.43.0


From bb9f52d140b5275f90e38ad8475deb5ed98b6752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:34 +0000
Subject: [PATCH 07/65] fix: optimization values reach the variables of their
 own aliases

---
 trunk/SUAVE/Optimization/helper_functions.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Optimization/helper_functions.py b/trunk/SUAVE/Optimization/helper_functions.py
index 68b6f4e..48981d8 100644
--- a/trunk/SUAVE/Optimization/helper_functions.py
+++ b/trunk/SUAVE/Optimization/helper_functions.py
@@ -47,10 +47,14 @@ def set_values(dictionary,input_dictionary,converted_values,aliases):
         
     # Correspond aliases to inputs
     pointer = []
+    values  = []
     for ii in range(0,len(provided_names)):
-        for jj in range(0,len(aliases)):
-            if provided_names[ii] == aliases[jj][0]:
-                pointer.append(aliases[jj][1])
+        found = [aliases[jj][1] for jj in range(0,len(aliases)) if provided_names[ii] == aliases[jj][0]]
+        if not found:
+            raise KeyError("No alias for optimization input '%s'" % provided_names[ii])
+        pointer.extend(found)
+        values.extend([converted_values[ii]]*len(found))
+    converted_values = values
 
     for ii in range(0,len(pointer)):
         pointers = pointer[ii][:]
@@ -245,7 +249,10 @@ def get_values(dictionary,outputs,aliases):
     for ii in range(0,len(output_names)):
         for jj in range(0,len(aliases)):
             if output_names[ii] == aliases[jj][0]:
-                pointer.append(aliases[jj][1])    
+                pointer.append(aliases[jj][1])
+                break
+        else:
+            raise KeyError("No alias for optimization output '%s'" % output_names[ii])
                 
     values = np.zeros(len(outputs))
     for ii in range(0,len(outputs)):
-- 
2.43.0


From 0a76de5679481b0e911e0188b1d6dfe66d426a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 08/65] fix: problems without constraints of a kind evaluate to
 no constraints

---
 trunk/SUAVE/Optimization/Nexus.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Nexus.py b/trunk/SUAVE/Optimization/Nexus.py
index 11b6cf1..8956508 100644
--- a/trunk/SUAVE/Optimization/Nexus.py
+++ b/trunk/SUAVE/Optimization/Nexus.py
@@ -200,8 +200,8 @@ class Nexus(Data):
                 indices.append(ii)        
         iqconstraints = np.delete(constraints,indices,axis=0)
     
-        if iqconstraints == []:
-            scaled_constraints = []
+        if len(iqconstraints) == 0:
+            constraint_evaluations = np.array([])
         else:
 
             # get constaint values 
@@ -254,8 +254,8 @@ class Nexus(Data):
                 indices.append(ii)
         eqconstraints = np.delete(constraints,indices,axis=0)
     
-        if eqconstraints == []:
-            scaled_constraints = []
+        if len(eqconstraints) == 0:
+            scaled_constraints = np.array([])
         else:
             constraint_values  = help_fun.get_values(self,eqconstraints,aliases)
             scaled_constraints = help_fun.scale_const_values(eqconstraints,constraint_values) - help_fun.scale_const_bnds(eqconstraints)
@@ -286,6 +286,9 @@ class Nexus(Data):
         aliases     = self.optimization_problem.aliases
         constraints = self.optimization_problem.constraints
     
+        if len(constraints) == 0:
+            return np.array([])
+    
         constraint_values  = help_fun.get_values(self,constraints,aliases) 
         scaled_constraints = help_fun.scale_const_values(constraints,constraint_values) 
 
-- 
2.43.0


From 8fabba24d6214e7b590f6f4d59f70e2141adf073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 09/65] fix: a failed evaluation leaves no stale cached results

---
 trunk/SUAVE/Optimization/Nexus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trunk/SUAVE/Optimization/Nexus.py b/trunk/SUAVE/Optimization/Nexus.py
index 8956508..edcf5b3 100644
--- a/trunk/SUAVE/Optimization/Nexus.py
+++ b/trunk/SUAVE/Optimization/Nexus.py
@@ -127,6 +127,9 @@ class Nexus(Data):
         
         self.evaluation_count += 1
         
+        # until the procedure has completed, the results belong to no input
+        self.last_inputs = None
+        
         for key,step in nexus.procedure.items():
             if hasattr(step,'evaluate'):
                 self = step.evaluate(nexus)
-- 
2.43.0


From e232ffd2612f42d66288ce02de297ec523eb338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 10/65] fix: differential evolution applies every constraint,
 not only the last

---
 trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py b/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
index 6801f1a..7ecb19c 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
@@ -82,7 +82,7 @@ def SciPy_Solve(problem,solver='SLSQP', sense_step = 1.4901161193847656e-08, ite
         aliases            = problem.optimization_problem.aliases
         for ii in range(0,len(con)):
             de_constraint  = con[[ii]] 
-            def fun(x):
+            def fun(x, de_constraint=de_constraint):
                 problem.evaluate(x)
                 constraint_val = help_fun.get_values(problem,de_constraint,aliases)
                 return np.atleast_1d(constraint_val)
-- 
2.43.0


From a81774f984f484894749a315219b409cf04dac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 11/65] fix: constraint bounds are scaled like the constraint
 values

---
 trunk/SUAVE/Optimization/Nexus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Nexus.py b/trunk/SUAVE/Optimization/Nexus.py
index edcf5b3..cdc3873 100644
--- a/trunk/SUAVE/Optimization/Nexus.py
+++ b/trunk/SUAVE/Optimization/Nexus.py
@@ -211,7 +211,7 @@ class Nexus(Data):
             constraint_values = help_fun.get_values(self,iqconstraints,aliases)          
             
             # scale bounds 
-            scaled_bnd_constraints  = help_fun.scale_const_bnds(iqconstraints)
+            scaled_bnd_constraints  = help_fun.scale_const_values(iqconstraints,help_fun.scale_const_bnds(iqconstraints))
             
             # scale constaits 
             scaled_constraints = help_fun.scale_const_values(iqconstraints,constraint_values)
@@ -261,7 +261,7 @@ class Nexus(Data):
             scaled_constraints = np.array([])
         else:
             constraint_values  = help_fun.get_values(self,eqconstraints,aliases)
-            scaled_constraints = help_fun.scale_const_values(eqconstraints,constraint_values) - help_fun.scale_const_bnds(eqconstraints)
+            scaled_constraints = help_fun.scale_const_values(eqconstraints,constraint_values - help_fun.scale_const_bnds(eqconstraints))
 
         return scaled_constraints   
         
-- 
2.43.0


From 989c248552f8fc77a5a4eb31217e8a684b1d5ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 12/65] fix: trust region subproblem uses scaled constraint
 edges

---
 .../Package_Setups/TRMM/Trust_Region_Optimization.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
index 5593ee5..0ce8b77 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
@@ -233,7 +233,7 @@ class Trust_Region_Optimization(Data):
                 for lb, ub in zip(tr.lower_bound, tr.upper_bound):
                     bounds.append((lb,ub))
                 
-                constraints = self.initialize_SLSQP_constraints(con,problem,corrections,tr)
+                constraints = self.initialize_SLSQP_constraints(con,problem,corrections,tr,scaled_constraints)
                 # need corrections, tr
     
                 res = minimize(self.evaluate_corrected_model, x, constraints=constraints, \
@@ -758,7 +758,7 @@ class Trust_Region_Optimization(Data):
             
         return tr_action
     
-    def initialize_SLSQP_constraints(self,con,problem,corrections,tr):
+    def initialize_SLSQP_constraints(self,con,problem,corrections,tr,edges):
         # Initialize variables according to SLSQP requirements
         slsqp_con_list = []
         for i,c in enumerate(con):
@@ -771,9 +771,9 @@ class Trust_Region_Optimization(Data):
                 raise ValueError('Constraint specification not recognized.')
             c_dict['fun'] = self.unpack_constraints_slsqp
             if c[1] == '<':
-                c_dict['args'] = [i,-1,c[2],problem,corrections,tr]
+                c_dict['args'] = [i,-1,edges[i],problem,corrections,tr]
             else:
-                c_dict['args'] = [i,1,c[2],problem,corrections,tr]
+                c_dict['args'] = [i,1,edges[i],problem,corrections,tr]
             slsqp_con_list.append(c_dict)
         
         return slsqp_con_list
-- 
2.43.0


From c4d05b210b77b58d40435997087f26aa4624817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 13/65] fix: constraint restoration stays in the trust region
 and reports its own point

---
 .../Package_Setups/TRMM/Trust_Region_Optimization.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
index 0ce8b77..79d6839 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
@@ -279,7 +279,7 @@ class Trust_Region_Optimization(Data):
                     con_outputs = opt(opt_prob, sens_type='FD',problem=problem,corrections=corrections,tr=tr,
                                       lb=con_low_edge,ub=con_up_edge)
                     xOpt_corr = con_outputs[1]
-                    new_outputs = self.evaluate_corrected_model(x, problem=problem,corrections=corrections,tr=tr)
+                    new_outputs = self.evaluate_corrected_model(xOpt_corr, problem=problem,corrections=corrections,tr=tr)
         
                     fOpt_corr = new_outputs[0][0]
                     gOpt_corr = np.zeros([1,len(con)])[0]   
@@ -287,14 +287,14 @@ class Trust_Region_Optimization(Data):
                         gOpt_corr[ii] = new_outputs[1][ii]
                 elif self.optimizer == 'SLSQP':
                     bounds = []
-                    for lb, ub in zip(con_low_edge, con_up_edge):
+                    for lb, ub in zip(tr.lower_bound, tr.upper_bound):
                         bounds.append((lb,ub)) 
                         
                     res = minimize(self.evaluate_constraints, x, \
                                    args=(problem,corrections,tr,con_low_edge,con_up_edge), bounds=bounds, method='slsqp')                    
                         
                     xOpt_corr = res['x']
-                    new_outputs = self.evaluate_corrected_model(x, problem=problem,corrections=corrections,tr=tr,
+                    new_outputs = self.evaluate_corrected_model(xOpt_corr, problem=problem,corrections=corrections,tr=tr,
                                                                 return_cons=True)
                     
                     fOpt_corr = new_outputs[0][0]
-- 
2.43.0


From caf82bd59eaeba76bf194a3dee566dbb89387b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 14/65] fix: trust region accuracy ratio uses corrected
 constraints

---
 .../Package_Setups/TRMM/Trust_Region_Optimization.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
index 79d6839..82751e4 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
@@ -241,7 +241,8 @@ class Trust_Region_Optimization(Data):
                 
                 fOpt_corr = res['fun']
                 xOpt_corr = res['x']
-                gOpt_corr = problem.all_constraints(xOpt_corr)
+                gOpt_corr = np.array(self.evaluate_corrected_model(xOpt_corr,problem=problem,corrections=corrections,tr=tr,
+                                                               return_cons=True)[1])
                 
                 if res['success']:
                     feasible_flag = True
-- 
2.43.0


From 288b2d7516261e683b0bb359c92d3c834bb62c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 15/65] fix: a rejected trust region candidate is not returned
 as the solution

---
 .../Package_Setups/TRMM/Trust_Region_Optimization.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
index 82751e4..7438fde 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
@@ -347,6 +347,8 @@ class Trust_Region_Optimization(Data):
                 f_out.close()
                 if print_output == False:
                     sys.stdout = sys.__stdout__                  
+                if accepted == 0:
+                    fOpt_corr, xOpt_corr = f_center, x*1.
                 return (fOpt_corr,xOpt_corr,'Trust region too small')
             
             # Terminate if solution is infeasible, no change is detected, and trust region does not expand
@@ -387,6 +389,8 @@ class Trust_Region_Optimization(Data):
         print('Max iteration limit reached')
         if print_output == False:
             sys.stdout = sys.__stdout__          
+        if accepted == 0:
+            fOpt_corr, xOpt_corr = f_center, x*1.
         return (fOpt_corr,xOpt_corr,'Max iteration limit reached')
             
         
-- 
2.43.0


From 6a83a2c2e086ece04b5f7e3f0ad2cd51a733eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 16/65] fix: optimizers restore the output stream they found

---
 .../Package_Setups/TRMM/Trust_Region_Optimization.py     | 9 +++++----
 .../SUAVE/Optimization/Package_Setups/additive_setup.py  | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
index 7438fde..90d2ad2 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
@@ -114,6 +114,7 @@ class Trust_Region_Optimization(Data):
           convergance_tolerance               [-]
         """          
         if print_output == False:
+            old_stdout = sys.stdout
             devnull = open(os.devnull,'w')
             sys.stdout = devnull
             
@@ -346,7 +347,7 @@ class Trust_Region_Optimization(Data):
                 f_out.write('Trust region too small')
                 f_out.close()
                 if print_output == False:
-                    sys.stdout = sys.__stdout__                  
+                    sys.stdout = old_stdout                  
                 if accepted == 0:
                     fOpt_corr, xOpt_corr = f_center, x*1.
                 return (fOpt_corr,xOpt_corr,'Trust region too small')
@@ -358,7 +359,7 @@ class Trust_Region_Optimization(Data):
                 f_out.write('Solution infeasible, no improvement can be made')
                 f_out.close()
                 if print_output == False:
-                    sys.stdout = sys.__stdout__                  
+                    sys.stdout = old_stdout                  
                 return (fOpt_corr,xOpt_corr,'Solution infeasible')      
             
             # History writing
@@ -372,7 +373,7 @@ class Trust_Region_Optimization(Data):
                 f_out.write('Hard convergence reached')
                 f_out.close()
                 if print_output == False:
-                    sys.stdout = sys.__stdout__                  
+                    sys.stdout = old_stdout                  
                 return (fOpt_corr,xOpt_corr,'convergence reached')            
             
             # Update trust region center
@@ -388,7 +389,7 @@ class Trust_Region_Optimization(Data):
         f_out.close()
         print('Max iteration limit reached')
         if print_output == False:
-            sys.stdout = sys.__stdout__          
+            sys.stdout = old_stdout          
         if accepted == 0:
             fOpt_corr, xOpt_corr = f_center, x*1.
         return (fOpt_corr,xOpt_corr,'Max iteration limit reached')
diff --git a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
index eebe2af..faa5d2e 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
@@ -69,6 +69,7 @@ class Additive_Solver():
         """        
         
         if print_output == False:
+            old_stdout = sys.stdout
             devnull = open(os.devnull,'w')
             sys.stdout = devnull    
         
@@ -314,7 +315,7 @@ class Additive_Solver():
         f_out.close()
         print(fOpt,xOpt)
         if print_output == False:
-            sys.stdout = sys.__stdout__
+            sys.stdout = old_stdout
         
         # Format objective function to array, ensure output consistency
         if np.isscalar(fOpt):
-- 
2.43.0


From 4808707c57978c9221508bf5c8c8e050a2e50877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:14 +0000
Subject: [PATCH 17/65] fix: swarm search returns the best feasible design it
 evaluated

---
 .../particle_swarm_optimization.py              | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py b/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py
index 71d8dd7..cb8cdf5 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py
@@ -144,6 +144,9 @@ def particle_swarm_optimization(func, lb, ub, ieqcons=[], f_ieqcons=None, args=(
         # Initialize the particle's velocity
         v[i, :] = vlow + np.random.rand(D)*(vhigh - vlow)
        
+    # Best feasible design evaluated so far, the one which is returned
+    xb, fb = g.copy(), fg
+       
     # Iterate until termination criterion met ##################################
     it = 1
     while it<=maxiter:
@@ -164,8 +167,12 @@ def particle_swarm_optimization(func, lb, ub, ieqcons=[], f_ieqcons=None, args=(
             x[i, mark2] = ub[mark2]
             fx = obj(x[i, :])
             
+            feasible = (fx<fp[i] or fx<fb) and is_feasible(x[i, :])
+            if feasible and fx<fb:
+                xb, fb = x[i, :].copy(), fx
+            
             # Compare particle's best position (if constraints are satisfied)
-            if fx<fp[i] and is_feasible(x[i, :]):
+            if fx<fp[i] and feasible:
                 p[i, :] = x[i, :].copy()
                 fp[i] = fx
 
@@ -179,10 +186,10 @@ def particle_swarm_optimization(func, lb, ub, ieqcons=[], f_ieqcons=None, args=(
                     stepsize = np.sqrt(np.sum((g-tmp)**2))
                     if np.abs(fg - fx)<=minfunc:
                         print('Stopping search: Swarm best objective change less than {:}'.format(minfunc))
-                        return tmp, fx
+                        return xb, fb
                     elif stepsize<=minstep:
                         print('Stopping search: Swarm best position change less than {:}'.format(minstep))
-                        return tmp, fx
+                        return xb, fb
                     else:
                         g = tmp.copy()
                         fg = fx
@@ -193,7 +200,7 @@ def particle_swarm_optimization(func, lb, ub, ieqcons=[], f_ieqcons=None, args=(
 
     print('Stopping search: maximum iterations reached --> {:}'.format(maxiter))
     
-    if not is_feasible(g):
+    if not is_feasible(xb):
         print("However, the optimization couldn't find a feasible design. Sorry")
-    return g, fg
+    return xb, fb
 
-- 
2.43.0


From 6008472a13011d3f8c9ac2db5376571698477e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:34 +0000
Subject: [PATCH 18/65] fix: merging into a container copies nested containers
 of the argument

---
 trunk/SUAVE/Core/Data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Core/Data.py b/trunk/SUAVE/Core/Data.py
index 14a6b61..ed4bf7d 100644
--- a/trunk/SUAVE/Core/Data.py
+++ b/trunk/SUAVE/Core/Data.py
@@ -16,7 +16,7 @@
 import numpy as np
 from .Arrays import atleast_2d_col, array_type, matrix_type, append_array
 
-from copy import copy
+from copy import deepcopy
 
 # for enforcing attribute style access names
 import string
@@ -478,7 +478,7 @@ class Data(dict):
                 try:
                     self[k].append_or_update(v)
                 except:
-                    self[k] = copy(v)
+                    self[k] = deepcopy(v)
         return          
     
     def get_bases(self):
-- 
2.43.0


From 87af2664bd3ad3f46179b262cbcc889bb6918635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:06 +0000
Subject: [PATCH 19/65] fix: a segment's start altitude is not written into the
 end of the segment before it

---
 trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
index 774c420..68dc01d 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
@@ -43,7 +43,7 @@ def initialize_inertial_position(segment):
     """    
     
     if segment.state.initials:
-        r_initial = segment.state.initials.conditions.frames.inertial.position_vector
+        r_initial = segment.state.initials.conditions.frames.inertial.position_vector.copy()
         r_current = segment.state.conditions.frames.inertial.position_vector
         R_initial = segment.state.initials.conditions.frames.inertial.aircraft_range
         R_current = segment.state.conditions.frames.inertial.aircraft_range
-- 
2.43.0


From fb7511a3e3a33d418baf7b9f0f56546c4acfe511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 20/65] fix: constant angle climbs at Mach or dynamic pressure
 can start where the previous segment ended

---
 trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py b/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
index 58b9d41..dc52717 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
@@ -107,6 +107,11 @@ def update_differentials(segment):
     alt0       = segment.altitude_start
     altf       = segment.altitude_end    
 
+    # check for initial altitude
+    if alt0 is None:
+        if not segment.state.initials: raise AttributeError('altitude not set')
+        alt0 = -1.0 * segment.state.initials.conditions.frames.inertial.position_vector[-1,2]
+
     dz = altf - alt0
     vz = -v[:,2,None] # maintain column array
 
@@ -119,7 +124,7 @@ def update_differentials(segment):
     I = I * dt
     
     # Calculate the altitudes
-    alt = np.dot(I,vz) + segment.altitude_start
+    alt = np.dot(I,vz) + alt0
     
     # pack
     t_initial                                       = segment.state.conditions.frames.inertial.time[0,0]
-- 
2.43.0


From bf371a37f0f86d5148528604a2f85f37bf7f89dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 21/65] fix: pitch of constant pitch rate segments follows from
 the inputs when a mission is flown again

---
 .../Cruise/Constant_Pitch_Rate_Constant_Altitude.py         | 3 +--
 ...ant_Acceleration_Constant_Pitchrate_Constant_Altitude.py | 6 ++----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py b/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py
index a8e59f9..5654a5b 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py
@@ -58,7 +58,6 @@ def initialize_conditions(segment):
     # check for initial pitch
     if T0 is None:
         T0  =  state.initials.conditions.frames.body.inertial_rotations[-1,1]
-        segment.pitch_initial = T0
     
     # dimensionalize time
     t_initial = conditions.frames.inertial.time[0,0]
@@ -67,7 +66,7 @@ def initialize_conditions(segment):
     time      = t_nondim * (t_final-t_initial) + t_initial
     
     # set the body angle
-    body_angle = theta_dot*time + T0
+    body_angle = theta_dot*(time-t_initial) + T0
     segment.state.conditions.frames.body.inertial_rotations[:,1] = body_angle[:,0]    
     
     # pack
diff --git a/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py b/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
index df9d6d0..02d4512 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
@@ -47,12 +47,10 @@ def initialize_conditions(segment):
     if alt is None:
         if not segment.state.initials: raise AttributeError('altitude not set')
         alt = -1.0 * segment.state.initials.conditions.frames.inertial.position_vector[-1,2]
-        segment.altitude = alt
         
     # check for initial pitch
     if T0 is None:
         T0  =  segment.state.initials.conditions.frames.body.inertial_rotations[-1,1]
-        segment.pitch_initial = T0    
 
     # dimensionalize time
     t_initial = segment.state.conditions.frames.inertial.time[0,0]
@@ -65,9 +63,9 @@ def initialize_conditions(segment):
     
     # set the body angle
     if Tf > T0:
-        body_angle = T0 + time*(Tf-T0)/(t_final-t_initial)
+        body_angle = T0 + (time-t_initial)*(Tf-T0)/(t_final-t_initial)
     else:
-        body_angle = T0 - time*(T0-Tf)/(t_final-t_initial)
+        body_angle = T0 - (time-t_initial)*(T0-Tf)/(t_final-t_initial)
     segment.state.conditions.frames.body.inertial_rotations[:,1] = body_angle[:,0]     
     
     # pack
-- 
2.43.0


From dbc38c3e53c6150d61371fcca5f936360a84b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:42 +0000
Subject: [PATCH 22/65] fix: a constant throttle cruise takes its inherited
 start speed anew on each flight

---
 .../Constant_Throttle_Constant_Altitude.py    | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Throttle_Constant_Altitude.py b/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Throttle_Constant_Altitude.py
index 7bf3f1b..3b9eef8 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Throttle_Constant_Altitude.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Throttle_Constant_Altitude.py
@@ -53,7 +53,7 @@ def integrate_velocity(segment):
     
     # unpack 
     conditions = segment.state.conditions
-    v0         = segment.air_speed_start
+    v0         = conditions.frames.inertial.velocity_vector[0,0] # set with the other initial conditions
     I          = segment.state.numerics.time.integrate
     a          = conditions.frames.inertial.acceleration_vector
     
@@ -101,7 +101,6 @@ def initialize_conditions(segment):
     # unpack inputs
     alt      = segment.altitude 
     v0       = segment.air_speed_start
-    vf       = segment.air_speed_end 
     throttle = segment.throttle	
     N        = segment.state.numerics.number_control_points   
     
@@ -115,20 +114,12 @@ def initialize_conditions(segment):
         
     # avoid having zero velocity since aero and propulsion models need non-zero Reynolds number
     if v0 == 0.0: v0 = 0.01
-    if vf == 0.0: vf = 0.01
-    
-    # intial and final speed cannot be the same
-    if v0 == vf:
-        vf = vf + 0.01
-        
-    # repack
-    segment.air_speed_start = v0
-    segment.air_speed_end   = vf
-    
+
     # pack conditions  
     segment.state.conditions.propulsion.throttle[:,0] = throttle  
     segment.state.conditions.freestream.altitude[:,0] = alt
     segment.state.conditions.frames.inertial.position_vector[:,2] = -alt # z points down    
+    segment.state.conditions.frames.inertial.velocity_vector[:,0] = v0
     
 # ----------------------------------------------------------------------
 #  Solve Residuals
@@ -166,6 +157,14 @@ def solve_residuals(segment):
     FT = conditions.frames.inertial.total_force_vector
     vf = segment.air_speed_end
     v  = conditions.frames.inertial.velocity_vector
+
+    # avoid having zero velocity since aero and propulsion models need non-zero Reynolds number
+    if vf == 0.0: vf = 0.01
+
+    # intial and final speed cannot be the same
+    if v[0,0] == vf:
+        vf = vf + 0.01
+
     m  = conditions.weights.total_mass
     a  = conditions.frames.inertial.acceleration_vector
 
-- 
2.43.0


From 52e23b1328c5a74f7b349932235a35af1d30eb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:59 +0000
Subject: [PATCH 23/65] fix: longitude rate uses the cosine of the latitude
 itself, in radians

---
 trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
index 68dc01d..043478f 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
@@ -199,9 +199,10 @@ def update_planet_position(segment):
 
     # Find the velocities and integrate the positions
     lamdadot  = (V/R)*np.cos(gamma)*np.cos(psi)
-    lamda     = np.dot(I,lamdadot) / Units.deg # Latitude
-    mudot     = (V/R)*np.cos(gamma)*np.sin(psi)/np.cos(lamda)
-    mu        = np.dot(I,mudot) / Units.deg # Longitude
+    lamda     = np.dot(I,lamdadot) / Units.deg # Change of latitude
+    lat       = conditions.frames.planet.latitude[0,0]
+    mudot     = (V/R)*np.cos(gamma)*np.sin(psi)/np.cos((lat+lamda)*Units.deg)
+    mu        = np.dot(I,mudot) / Units.deg # Change of longitude
 
     # Reshape the size of the vectorss
     shape     = np.shape(conditions.freestream.velocity)
@@ -209,7 +210,6 @@ def update_planet_position(segment):
     lamda     = np.reshape(lamda,shape)
 
     # Pack'r up
-    lat = conditions.frames.planet.latitude[0,0]
     lon = conditions.frames.planet.longitude[0,0]
     conditions.frames.planet.latitude  = lat + lamda
     conditions.frames.planet.longitude = lon + mu
-- 
2.43.0


From 853e5750344e6f7786fa780d0e2b31c42fbd542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:16 +0000
Subject: [PATCH 24/65] fix: calibrated airspeed in a descent refers to the
 standard sea level, as in a climb

---
 .../Missions/Segments/Descent/Constant_CAS_Constant_Rate.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Descent/Constant_CAS_Constant_Rate.py b/trunk/SUAVE/Methods/Missions/Segments/Descent/Constant_CAS_Constant_Rate.py
index 87b2621..97463c4 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Descent/Constant_CAS_Constant_Rate.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Descent/Constant_CAS_Constant_Rate.py
@@ -66,7 +66,7 @@ def initialize_conditions(segment):
     density  = alt_data.density[:,0]  
     pressure = alt_data.pressure[:,0] 
 
-    MSL_data  = segment.analyses.atmosphere.compute_values(0.0,segment.temperature_deviation)
+    MSL_data  = segment.analyses.atmosphere.compute_values(0.0,0.0)
     pressure0 = MSL_data.pressure[0]
 
     kcas  = cas / Units.knots
-- 
2.43.0


From 03bf18a8c04d91a4fd903a0690e7ecc0dd9e3a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:17 +0000
Subject: [PATCH 25/65] fix: all-at-once missions hand unknowns of several
 columns back to their segments by rows

---
 trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py
index 63ae2e2..1f42c17 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py
@@ -195,7 +195,7 @@ def unpack_subsegments(segment):
         for key in sub_segment.state.unknowns.keys():
             if key=='tag':
                 continue
-            points = sub_segment.state.unknowns[key].size
+            points = sub_segment.state.unknowns[key].shape[0] # rows, whatever the number of columns
             sub_segment.state.unknowns[key] = segment.state.unknowns[key][counter[key]:counter[key]+points]
             counter[key] = counter[key]+points
             
-- 
2.43.0


From 7277e35c8934395d24e9d265543d16a8a15f4ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 26/65] fix: a network container sums networks that report
 different things: no additional fuel, or no rotation

---
 trunk/SUAVE/Components/Energy/Networks/Network.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Network.py b/trunk/SUAVE/Components/Energy/Networks/Network.py
index f44570e..e30078d 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Network.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Network.py
@@ -133,17 +133,18 @@ class Container(Physical_Component.Container):
 
         for net in self.values():
 
-            if hasattr(net, 'has_additional_fuel_type'):
-                
-                if net.has_additional_fuel_type: #Check if Network has additional fuel
+            results_p = net.evaluate_thrust(state) 
 
-                    results.vehicle_additional_fuel_rate  =  0.*ones_row(1) #fuel rate for additional fuel types, eg cryogenic fuel
-                    results.vehicle_fuel_rate             =  0.*ones_row(1)    
+            if 'vehicle_additional_fuel_rate' in results_p and 'vehicle_additional_fuel_rate' not in results: #First network with additional fuel
 
-            results_p = net.evaluate_thrust(state) 
+                results.vehicle_additional_fuel_rate  =  0.*ones_row(1) #fuel rate for additional fuel types, eg cryogenic fuel
+                results.vehicle_fuel_rate             =  1.*results.vehicle_mass_rate # the networks so far burn fuel only
             
             for key in results.keys():
-                results[key] += results_p[key]
+                if key in results_p:
+                    results[key] += results_p[key]
+                elif key == 'vehicle_fuel_rate': # no additional fuel, all of the mass rate is fuel
+                    results[key] += results_p.vehicle_mass_rate
 
         return results
 
-- 
2.43.0


From 9508128ad0627eaa881ba353f513c17b70d4dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 27/65] fix: an engine deck's thrust counts every engine, as
 its fuel flow does

---
 trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py b/trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py
index 3cbb77e..994fd61 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Propulsor_Surrogate.py
@@ -126,7 +126,7 @@ class Propulsor_Surrogate(Network):
         sfc = sfc*self.sfc_input_scale*self.sfc_anchor_scale
         thr = thr*self.thrust_input_scale*self.thrust_anchor_scale
        
-        F    = thr
+        F    = thr*self.number_of_engines
         mdot = thr*sfc*self.number_of_engines
         
         if self.negative_throttle_values == False:
-- 
2.43.0


From d3f389df77421cd79232514799e232194627e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 28/65] fix: several rocket engines burn propellant for each of
 them

---
 trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py b/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py
index 497d214..013174d 100644
--- a/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py
+++ b/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py
@@ -122,7 +122,7 @@ class Rocket_Thrust(Energy_Component):
         thrust        = num_eng*mdot_temp*C
         
         #--Make mdot size of thrust
-        mdot               = mdot_temp 
+        mdot               = num_eng*mdot_temp 
         mdot[mdot<0.0]     = 0.0 
         thrust[thrust<0.0] = 0.0
         
-- 
2.43.0


From ef8c5a6cc2d51b1c280add01d823e406d82d4b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 29/65] fix: constant speed propellers deliver the thrust of
 all of them, not of one

---
 .../Networks/Internal_Combustion_Propeller_Constant_Speed.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
index 58eb15a..27e05d8 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Internal_Combustion_Propeller_Constant_Speed.py
@@ -151,7 +151,7 @@ class Internal_Combustion_Propeller_Constant_Speed(Network):
         conditions.propulsion.power = total_power
         
         results = Data()
-        results.thrust_force_vector       = F
+        results.thrust_force_vector       = total_thrust
         results.vehicle_mass_rate         = mdot
         results.network_y_axis_rotation   = state.ones_row(1) * 0.0
         
-- 
2.43.0


From 66c3f7424c19f64c3fb0fdd0e4a5bf1cc232eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 30/65] fix: the electronics efficiency of a network counts the
 shaft power of all propellers

---
 trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py | 4 ++--
 trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py       | 6 +++---
 trunk/SUAVE/Components/Energy/Networks/Solar.py             | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py b/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py
index 4c69ee0..fe47023 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Battery_Propeller.py
@@ -275,10 +275,10 @@ class Battery_Propeller(Network):
             
             avionics_payload_power   = np.zeros((len(volts),1)) 
             total_thrust             = np.zeros((len(volts),3)) 
-            P                        = battery.inputs.power_in
+            total_power              = battery.inputs.power_in
             
         # Pack the conditions for outputs
-        pack_battery_conditions(conditions,battery,avionics_payload_power,P)  
+        pack_battery_conditions(conditions,battery,avionics_payload_power,total_power)  
         
          # Create the outputs
         results = Data()
diff --git a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
index 3acc1ae..f64cb63 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Lift_Cruise.py
@@ -427,12 +427,12 @@ class Lift_Cruise(Network):
              
             total_prop_thrust       = np.zeros((len(volts),3))  
             total_lift_rotor_thrust = np.zeros((len(volts),3))  
-            P_forward               = np.zeros((len(volts),1))  
-            P_lift                  = np.zeros((len(volts),1))  
+            total_prop_power        = np.zeros((len(volts),1))  
+            total_lift_rotor_power  = np.zeros((len(volts),1))  
             current_total           = battery.cell.charging_current*n_parallel * np.ones_like(volts) 
         
         # Pack the conditions for outputs     
-        P = P_forward + P_lift
+        P = total_prop_power + total_lift_rotor_power
         avionics_payload_power = avionics.outputs.power + payload.outputs.power
         pack_battery_conditions(conditions,battery,avionics_payload_power,P)  
 
diff --git a/trunk/SUAVE/Components/Energy/Networks/Solar.py b/trunk/SUAVE/Components/Energy/Networks/Solar.py
index 0b65bf9..76a8c25 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Solar.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Solar.py
@@ -241,7 +241,7 @@ class Solar(Network):
         # Pack the conditions for outputs 
         battery.inputs.current             = solar_logic.inputs.currentesc
         conditions.propulsion.solar_flux   = solar_flux.outputs.flux          
-        pack_battery_conditions(conditions,battery,avionics_payload_power,P)  
+        pack_battery_conditions(conditions,battery,avionics_payload_power,total_power)  
 
         # Create the outputs
         results = Data()
-- 
2.43.0


From a5c4266db118d80dcee92c711b4b6d3b9b5e78a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 31/65] fix: a ducted fan network delivers the thrust of its
 own number of engines, as the other networks do

---
 trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py b/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
index 84e899a..c33167b 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
@@ -131,6 +131,7 @@ class Ducted_Fan(Network):
         thrust.inputs.fan_area_ratio                           = fan_nozzle.outputs.area_ratio
         thrust.inputs.fan_nozzle                               = fan_nozzle.outputs
         thrust.inputs.bypass_ratio                             = self.bypass_ratio  #0.0
+        thrust.inputs.number_of_engines                        = self.number_of_engines
         
         #compute the thrust
         thrust(conditions)
-- 
2.43.0


From 012539b4b854d6fe285fa8b46d00a7060f6472a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 32/65] fix: supersonic lift wave drag stays with its own
 control point when subsonic points come first

---
 .../Supersonic_Zero/Drag/compressibility_drag_total.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py b/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py
index 7809bf5..31df4c3 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Supersonic_Zero/Drag/compressibility_drag_total.py
@@ -186,7 +186,7 @@ def lift_wave_drag(conditions,configuration,wing,Sref_main):
     cd_lift_wave = wave_drag_lift(conditions,configuration,wing)
 
     # Pack supersonic results into correct elements
-    cd_c_l[mach >= 1.01] = cd_lift_wave[0:len(mach[mach >= 1.01]),0]
+    cd_c_l[mach >= 1.01] = cd_lift_wave[mach >= 1.01]
 
     # Convert coefficient to full aircraft value
     cd_c_l = cd_c_l*wing.areas.reference/Sref_main
-- 
2.43.0


From 7f86a4b74379d4cf801deb7684d5bbfc68b42ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 33/65] fix: the drag build-up of a vehicle without networks (a
 glider) has no pylons

---
 .../Common/Fidelity_Zero/Drag/parasite_drag_pylon.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_pylon.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_pylon.py
index 7db2212..95d6080 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_pylon.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Drag/parasite_drag_pylon.py
@@ -49,7 +49,7 @@ def parasite_drag_pylon(state,settings,geometry):
     conditions = state.conditions 
     
     pylon_factor        = 0.20 # 20% of nacelle drag
-    n_networks          =  len(geometry.networks)  # number of propulsive system in vehicle (NOT # of ENGINES)
+    n_networks          =  max(len(geometry.networks),1)  # number of propulsive system in vehicle (NOT # of ENGINES)
     pylon_parasite_drag = 0.00
     pylon_wetted_area   = 0.00
     pylon_cf            = 0.00
-- 
2.43.0


From 69feafb1190d8690f6516855fab7be3d855cb2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 34/65] fix: AERODAS has a default drag_coefficient_increment,
 which it adds to its drag

---
 trunk/SUAVE/Analyses/Aerodynamics/AERODAS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trunk/SUAVE/Analyses/Aerodynamics/AERODAS.py b/trunk/SUAVE/Analyses/Aerodynamics/AERODAS.py
index 83966ac..866699d 100644
--- a/trunk/SUAVE/Analyses/Aerodynamics/AERODAS.py
+++ b/trunk/SUAVE/Analyses/Aerodynamics/AERODAS.py
@@ -54,6 +54,7 @@ class AERODAS(Markup):
         settings.section_zero_lift_angle_of_attack                = 0.0 * Units.deg
         settings.section_minimum_drag_coefficient_angle_of_attack = 0.0 * Units.deg 
         settings.section_lift_curve_slope                         = 2.0 * np.pi
+        settings.drag_coefficient_increment                       = 0.0
 
         # build the evaluation process
         compute = self.process.compute
-- 
2.43.0


From ab3a2df36cf3849a3ffdbdca2f2691312352c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 35/65] fix: lifting line trains each wing on its own lift and
 drag

---
 trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py b/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py
index 9db0c0a..bf6d73b 100644
--- a/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py
+++ b/trunk/SUAVE/Analyses/Aerodynamics/Lifting_Line.py
@@ -207,8 +207,8 @@ class Lifting_Line(Aerodynamics):
         CL  = np.zeros_like(AoA)
         CDi = np.zeros_like(AoA)
         
-        wing_CLs = Data.fromkeys(geometry.wings.keys(), np.zeros_like(AoA))
-        wing_CDis = Data.fromkeys(geometry.wings.keys(), np.zeros_like(AoA)) 
+        wing_CLs = Data({tag: np.zeros_like(AoA) for tag in geometry.wings.keys()})
+        wing_CDis = Data({tag: np.zeros_like(AoA) for tag in geometry.wings.keys()})
 
         # condition input, local, do not keep
         konditions              = Data()
@@ -281,7 +281,7 @@ class Lifting_Line(Aerodynamics):
         
         for wing in wing_CL_data.keys():
             wing_cl_surrogates[wing]  = np.poly1d(np.polyfit(X_data, wing_CL_data[wing] ,1))
-            wing_cdi_surrogates[wing] = np.poly1d(np.polyfit(X_data, wing_CL_data[wing] ,2))
+            wing_cdi_surrogates[wing] = np.poly1d(np.polyfit(X_data, wing_CDi_data[wing] ,2))
 
         self.surrogates.lift_coefficient       = cl_surrogate
         self.surrogates.drag_coefficient       = cdi_surrogate
-- 
2.43.0


From ba6c6dc4da17bbbec3f7819bf9179cd40ecdcc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 36/65] fix: lifting line no longer swaps the root and tip
 twist of a wing without segments

---
 trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py b/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
index 03ce3dd..5b33cb6 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
@@ -66,8 +66,8 @@ def lifting_line(conditions,settings,geometry):
     AR          = wing.aspect_ratio
     MAC         = wing.chords.mean_aerodynamic
     taper       = wing.taper
-    tip_twist   = wing.twists.root
-    root_twist  = wing.twists.tip 
+    tip_twist   = wing.twists.tip
+    root_twist  = wing.twists.root
     root_chord  = wing.chords.root
     tip_chord   = wing.chords.tip      
     r           = settings.number_of_stations # Number of divisions
-- 
2.43.0


From 9f28efc952b49f16d05adadd96a1c5003b595501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:23 +0000
Subject: [PATCH 37/65] fix: lifting line induced drag from its Fourier
 coefficients (it was negative at negative lift)

---
 .../Methods/Aerodynamics/Lifting_Line/Lifting_Line.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py b/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
index 5b33cb6..6e5e172 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Lifting_Line/Lifting_Line.py
@@ -149,17 +149,8 @@ def lifting_line(conditions,settings,geometry):
     # The 3-D Coefficient of lift
     CL = A[:,0]*np.pi*AR
     
-    # Find the sectional coefficients of lift
-    Cl = b*np.cumsum(4*A*np.sin(n*thetan),axis=1)/c
-    
-    # induced alpha
-    alpha_i = np.cumsum(n*A*np.sin(n*A)/np.sin(thetan),axis=1)
-    
-    # Sectional vortex drag
-    Cdv = Cl*alpha_i
-    
     # Total vortex drag
-    CDv = np.sum(Cdv*AR*etam,axis=1)
+    CDv = np.pi*AR*np.sum(n*A**2,axis=1)
     
     #############
     # Profile drag of a 2-D section
-- 
2.43.0


From 5bda2416770d38d76a6d7d824c7acc633e10a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:06 +0000
Subject: [PATCH 38/65] fix: the wetted area of a symmetric segmented wing
 counts both sides, as its reference area does

---
 .../Two_Dimensional/Planform/wing_segmented_planform.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
index 87c380c..abae28c 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
@@ -94,7 +94,7 @@ def wing_segmented_planform(wing, overwrite_reference = False):
     
     # Calculate the weighted area, this should not include any unexposed area 
     A_wets = 2*(1+0.2*t_cs[:-1])*As
-    wet_area = np.sum(A_wets)
+    wet_area = np.sum(A_wets)*(1+sym)
     
     # Calculate the wing area
     ref_area = np.sum(As)*(1+sym)
-- 
2.43.0


From 3322c9dba9fcbd9a0f0144557036fde419a02412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:06 +0000
Subject: [PATCH 39/65] fix: the aerodynamic center of a segmented vertical
 wing lies above its root, as that of one without segments

---
 .../Two_Dimensional/Planform/wing_segmented_planform.py        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
index abae28c..880e423 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
@@ -148,6 +148,9 @@ def wing_segmented_planform(wing, overwrite_reference = False):
 
     aerodynamic_center = (np.dot(np.transpose(Cxys),As)/(ref_area/(1+sym)))
 
+    if wing.vertical:
+        aerodynamic_center = aerodynamic_center[[0,2,1]]
+
     single_side_aerodynamic_center = (np.array(aerodynamic_center)*1.)
     single_side_aerodynamic_center[0] = single_side_aerodynamic_center[0] - MAC*.25    
     if sym== True:
-- 
2.43.0


From 399a6edabbd19ea89c60cef8f7625b340621f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:06 +0000
Subject: [PATCH 40/65] fix: a control surface starting at a segment break and
 reaching past the next one keeps its first section

---
 .../Two_Dimensional/Planform/populate_control_sections.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py
index 367378d..93ed7d8 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py
@@ -81,7 +81,7 @@ def populate_control_sections(wing):
                     append_CS = True 
                     
                 # Case 3   
-                elif (sf[0] < w_seg[i-1].percent_span_location) and (sf[1] > w_seg[i].percent_span_location):
+                elif (sf[0] <= w_seg[i-1].percent_span_location) and (sf[1] > w_seg[i].percent_span_location):
                     s_sf = np.array([w_seg[i-1].percent_span_location,w_seg[i].percent_span_location])       
                     append_CS = True                 
                 
-- 
2.43.0


From 3b636b2b401de659e2d9176e27437e23e405bd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:06 +0000
Subject: [PATCH 41/65] fix: chord lengths and span locations of a wing of one
 side span from its root to its tip

---
 .../compute_chord_length_from_span_location.py                  | 2 +-
 .../compute_span_location_from_chord_length.py                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Three_Dimensional/compute_chord_length_from_span_location.py b/trunk/SUAVE/Methods/Geometry/Three_Dimensional/compute_chord_length_from_span_location.py
index c437016..87ecb1a 100644
--- a/trunk/SUAVE/Methods/Geometry/Three_Dimensional/compute_chord_length_from_span_location.py
+++ b/trunk/SUAVE/Methods/Geometry/Three_Dimensional/compute_chord_length_from_span_location.py
@@ -37,7 +37,7 @@ def compute_chord_length_from_span_location(wing,span_location):
     cr = wing.chords.root
     b  = wing.spans.projected
     
-    b_2 = b/2.
+    b_2 = b/2. if wing.symmetric else b
     
     chord_length = ct + ((cr-ct)/b_2)*(b_2-span_location)
 
diff --git a/trunk/SUAVE/Methods/Geometry/Three_Dimensional/compute_span_location_from_chord_length.py b/trunk/SUAVE/Methods/Geometry/Three_Dimensional/compute_span_location_from_chord_length.py
index 502ffbd..a709989 100644
--- a/trunk/SUAVE/Methods/Geometry/Three_Dimensional/compute_span_location_from_chord_length.py
+++ b/trunk/SUAVE/Methods/Geometry/Three_Dimensional/compute_span_location_from_chord_length.py
@@ -38,7 +38,7 @@ def compute_span_location_from_chord_length(wing,chord_length):
     cr = wing.chords.root
     b  = wing.spans.projected
     
-    b_2 = b/2.
+    b_2 = b/2. if wing.symmetric else b
     
     if (cr-ct)==0:
         span_location = 0.
-- 
2.43.0


From 471af6b4e4b94c8be6dac569c5fdc7c61129083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:06 +0000
Subject: [PATCH 42/65] fix: seats of a fuselage of given length leave the
 space fore and aft free

---
 .../Geometry/Two_Dimensional/Planform/fuselage_planform.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/fuselage_planform.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/fuselage_planform.py
index f90f656..3024f98 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/fuselage_planform.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/fuselage_planform.py
@@ -92,7 +92,7 @@ def fuselage_planform(fuselage):
             cabin_length = 1.
         
         # Now we can calculate the number of passengers
-        number_seats    = np.round(cabin_length * seats_abreast / seat_pitch)
+        number_seats    = np.round((cabin_length - forward_extra - aft_extra) * seats_abreast / seat_pitch)
         if number_seats <=0: number_seats=0
     
     wetted_area = 0.0
-- 
2.43.0


From f36c2ca5f6b77d2be000d81e51529a1898a5dea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:39 +0000
Subject: [PATCH 43/65] fix: a unit kept in a variable can be used more than
 once

---
 trunk/SUAVE/Core/Units.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/trunk/SUAVE/Core/Units.py b/trunk/SUAVE/Core/Units.py
index 20d29d6..fc08a0b 100644
--- a/trunk/SUAVE/Core/Units.py
+++ b/trunk/SUAVE/Core/Units.py
@@ -13,6 +13,8 @@
 #   Imports
 # ------------------------------------------------------------
 
+import copy
+
 from SUAVE.Plugins.pint import UnitRegistry
 from SUAVE.Plugins.pint.quantity import _Quantity
 
@@ -46,9 +48,10 @@ def __rmul__(self,other):
     if isinstance(other,_Quantity):
         return _Quantity.__rmul__(self,other)
     else:
-        self._magnitude = other
-        self.ito_base_units()
-        return self.magnitude
+        quantity = copy.copy(self)             # a unit is still the same unit after it was used
+        quantity._magnitude = copy.copy(other) # and the values converted are still those of the caller
+        quantity.ito_base_units()
+        return quantity.magnitude
 
 # division converts out of base unit
 ## @ingroup Core
@@ -73,11 +76,12 @@ def __rdiv__(self,other):
     if isinstance(other,_Quantity):
         return _Quantity.__truediv__(self,other)
     else:
-        units = str(self._units)
-        self.ito_base_units()
-        self._magnitude = other
-        self.ito(units)
-        return self.magnitude
+        quantity = copy.copy(self)
+        units = str(quantity._units)
+        quantity.ito_base_units()
+        quantity._magnitude = copy.copy(other)
+        quantity.ito(units)
+        return quantity.magnitude
 
 # yay monkey patching!
 Units.Quantity.__mul__      = __rmul__
-- 
2.43.0


From 78f5e8686c562551f33e5021e9a4683db284bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:39 +0000
Subject: [PATCH 44/65] fix: the constant temperature atmosphere gives one
 temperature (and what follows from it) per altitude

---
 trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py b/trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py
index a03f457..2d5692a 100644
--- a/trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py
+++ b/trunk/SUAVE/Analyses/Atmospheric/Constant_Temperature.py
@@ -154,7 +154,7 @@ class Constant_Temperature(Atmospheric):
 
         p = p0* np.exp(-1.*dz*grav/(R*T0))
        
-        T   = temperature
+        T   = temperature * np.ones_like(zs)
         rho = gas.compute_density(T,p)
         a   = gas.compute_speed_of_sound(T)
         mu  = gas.compute_absolute_viscosity(T)
-- 
2.43.0


From a6bf2d61119cac037cab462499c534bc4bac5cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:39 +0000
Subject: [PATCH 45/65] fix: landing gear weights of general aviation aircraft
 are written into a container of their own, not into the class of all
 containers

---
 .../Weights/Correlations/General_Aviation/landing_gear.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py
index bc6c142..439ab8e 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py
@@ -41,7 +41,7 @@ def landing_gear(landing_weight, Nult, strut_length_main, strut_length_nose):
     nose_weight = .125*((Nult*W_l)**.566)*(l_n/12.)**.845
 
     #pack outputs
-    output = Data
+    output = Data()
     output.main = main_weight*Units.lbs
     output.nose = nose_weight*Units.lbs
 
-- 
2.43.0


From 081f6e3e5afa7173e877adf66a813750c13d3486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:39 +0000
Subject: [PATCH 46/65] fix: the weight method of blended wing bodies takes the
 settings its analysis hands it

---
 trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py b/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
index 15bebc7..bbb2774 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
@@ -28,7 +28,7 @@ import warnings
 # ----------------------------------------------------------------------
 
 ## @ingroup Methods-Weights-Correlations-BWB
-def empty(vehicle):
+def empty(vehicle,settings=None):
     """ This is for a BWB aircraft configuration.
 
     Assumptions:
-- 
2.43.0


From 67d7c6b36262c1908b2a17b12a335be03697a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:39 +0000
Subject: [PATCH 47/65] fix: systems are placed by the main wing and the mean
 place of the engines

---
 .../Center_of_Gravity/compute_component_centers_of_gravity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py b/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
index c7647a2..915d877 100644
--- a/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
+++ b/trunk/SUAVE/Methods/Center_of_Gravity/compute_component_centers_of_gravity.py
@@ -80,7 +80,7 @@ def compute_component_centers_of_gravity(vehicle, nose_load = 0.06):
     for net in vehicle.networks:
         net.mass_properties.center_of_gravity[0][0] = net.engine_length*.5
         network_mass                               += net.mass_properties.mass
-        network_moment                             += network_mass*(np.sum(np.array(net.origin),axis=0) +
+        network_moment                             += net.mass_properties.mass*(np.sum(np.array(net.origin),axis=0)/len(net.origin) +
                                                                          net.mass_properties.center_of_gravity)
 
         for key,Comp in net.items():
@@ -175,7 +175,7 @@ def compute_component_centers_of_gravity(vehicle, nose_load = 0.06):
     electrical_systems.mass_properties.center_of_gravity[0][0] = 0.0
     
     hydraulics.origin[0][0]                                    = .75*(vehicle.wings.main_wing.origin[0][0] + \
-                                                                      wing.mass_properties.center_of_gravity[0][0]) + 0.25* \
+                                                                      vehicle.wings.main_wing.mass_properties.center_of_gravity[0][0]) + 0.25* \
                                                                      length_scale*.95
     hydraulics.mass_properties.center_of_gravity[0][0]         = 0.0       
     
-- 
2.43.0


From 1de0c8ab8a7adb88ae438dbf3fb9a104eadbe985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:39 +0000
Subject: [PATCH 48/65] fix: landing gears carry the mass the weight methods
 give them

---
 trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py             | 1 +
 trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py           | 2 ++
 .../Methods/Weights/Correlations/Common/weight_transport.py     | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py b/trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py
index 707e6a7..23e6bd1 100644
--- a/trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py
+++ b/trunk/SUAVE/Methods/Weights/Buildups/eVTOL/empty.py
@@ -344,6 +344,7 @@ def empty(config,
     if not hasattr(config.landing_gear, 'main'):
         config.landing_gear.main       = SUAVE.Components.Landing_Gear.Main_Landing_Gear()
     config.landing_gear.main.mass      = output.landing_gear
+    config.landing_gear.main.mass_properties.mass = output.landing_gear
 
     #-------------------------------------------------------------------------------
     # Fuselage  Weight
diff --git a/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py b/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
index bbb2774..7ab1c4f 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/BWB/empty.py
@@ -203,8 +203,10 @@ def empty(vehicle,settings=None):
 
     vehicle.landing_gear.nose       = SUAVE.Components.Landing_Gear.Main_Landing_Gear()
     vehicle.landing_gear.nose.mass  = output.structures.nose_landing_gear
+    vehicle.landing_gear.nose.mass_properties.mass = output.structures.nose_landing_gear
     vehicle.landing_gear.main       = SUAVE.Components.Landing_Gear.Nose_Landing_Gear()   
     vehicle.landing_gear.main.mass  = output.structures.main_landing_gear  
+    vehicle.landing_gear.main.mass_properties.mass = output.structures.main_landing_gear
 
     control_systems.mass_properties.mass    = output.systems_breakdown.control_systems
     electrical_systems.mass_properties.mass = output.systems_breakdown.electrical
diff --git a/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py b/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
index 69529ae..6eeccce 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/Common/weight_transport.py
@@ -396,9 +396,11 @@ def empty_weight(vehicle, settings=None, method_type='New SUAVE'):
     if not hasattr(vehicle.landing_gear, 'nose'):
         vehicle.landing_gear.nose       = SUAVE.Components.Landing_Gear.Nose_Landing_Gear()
     vehicle.landing_gear.nose.mass  = output.structures.nose_landing_gear
+    vehicle.landing_gear.nose.mass_properties.mass = output.structures.nose_landing_gear
     if not hasattr(vehicle.landing_gear, 'main'):
         vehicle.landing_gear.main       = SUAVE.Components.Landing_Gear.Main_Landing_Gear()   
     vehicle.landing_gear.main.mass  = output.structures.main_landing_gear  
+    vehicle.landing_gear.main.mass_properties.mass = output.structures.main_landing_gear
 
     control_systems.mass_properties.mass        = output.systems_breakdown.control_systems
     electrical_systems.mass_properties.mass     = output.systems_breakdown.electrical
-- 
2.43.0


From 2b5b04d988ffa2c3a7b30d548f9e6b17fa3d953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:30 +0000
Subject: [PATCH 49/65] fix: archive keeps numpy scalars, tuples and arrays
 inside lists instead of turning them into null or failing

---
 trunk/SUAVE/Input_Output/SUAVE/archive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Input_Output/SUAVE/archive.py b/trunk/SUAVE/Input_Output/SUAVE/archive.py
index bd4cfb3..5db0a3f 100644
--- a/trunk/SUAVE/Input_Output/SUAVE/archive.py
+++ b/trunk/SUAVE/Input_Output/SUAVE/archive.py
@@ -105,7 +105,7 @@ def build_dict_r(v):
     tv = type(v) # Get value type
     
     # Transform to basic python data type as appropriate
-    if (tv == np.ndarray) or (tv == np.float64):
+    if isinstance(v,(np.ndarray,np.generic)):
         ret = v.tolist()
     elif (tv == str) or (tv == bool):
         ret = v
@@ -115,8 +115,8 @@ def build_dict_r(v):
         ret = v
     elif tv == types.FunctionType: # Functions cannot be stored
         ret = None        
-    elif tv == list:
-        ret = v    
+    elif (tv == list) or (tv == tuple):
+        ret = [build_dict_r(x) for x in v]    
 
     else:
         # Assume other data types are SUAVE data types and check
-- 
2.43.0


From 158adc195ea83bb274d7b878bd6fd6e7876b6708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:31 +0000
Subject: [PATCH 50/65] fix: mission breakdown counts the additional fuel once
 in its totals

---
 trunk/SUAVE/Input_Output/Results/print_mission_breakdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Input_Output/Results/print_mission_breakdown.py b/trunk/SUAVE/Input_Output/Results/print_mission_breakdown.py
index 8c7a558..71b0b4c 100644
--- a/trunk/SUAVE/Input_Output/Results/print_mission_breakdown.py
+++ b/trunk/SUAVE/Input_Output/Results/print_mission_breakdown.py
@@ -198,7 +198,7 @@ def print_mission_breakdown(results,filename='mission_breakdown.dat', units="imp
         fid.write( Segment_str+HPi_str+HPf_str+Wi_str+Wf_str+Dist_str+T_str+KCASi_str+KCASf_str+Mi_str+Mf_str+Fuel_str+add_fuel_str+'\n')
         
         # Sum fuel and additional fuel usage for printing summary once mission complete
-        total_fuel              = total_fuel + FUEL_MAIN + ALT_FUEL
+        total_fuel              = total_fuel + FUEL_MAIN
         total_additional_fuel   = total_additional_fuel + ALT_FUEL
         
         i = i+1
-- 
2.43.0


From d01cccea94ce8a5026ce971db892fc6a968fcbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:31 +0000
Subject: [PATCH 51/65] fix: mission breakdown prints the hours of missions
 longer than a day and closes its file

---
 trunk/SUAVE/Input_Output/Results/print_mission_breakdown.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Input_Output/Results/print_mission_breakdown.py b/trunk/SUAVE/Input_Output/Results/print_mission_breakdown.py
index 71b0b4c..c6a0422 100644
--- a/trunk/SUAVE/Input_Output/Results/print_mission_breakdown.py
+++ b/trunk/SUAVE/Input_Output/Results/print_mission_breakdown.py
@@ -226,12 +226,12 @@ def print_mission_breakdown(results,filename='mission_breakdown.dat', units="imp
         fid.write(' Total Fuel                  (kg) ........... '+ str(total_additional_fuel + TotalFuel)+'\n')
 
 
-    fid.write(' Total Time  (hh:mm) ........ '+ time.strftime('    %H:%M', time.gmtime(TotalTime))+'\n')
+    fid.write(' Total Time  (hh:mm) ........ '+ '    %02d:%02d' % divmod(int(TotalTime//60),60)+'\n')
 
     # Print timestamp
     fid.write(2*'\n'+ 43*'-'+ '\n' + datetime.datetime.now().strftime(" %A, %d. %B %Y %I:%M:%S %p"))
     
-    fid.close
+    fid.close()
 
     # done! 
     return
-- 
2.43.0


From d100d631eaf32dd77604741a47eeb52e560e4246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:31 +0000
Subject: [PATCH 52/65] fix: VTK output of a wing without symmetry uses that
 wing's own panel counts

---
 trunk/SUAVE/Input_Output/VTK/save_wing_vtk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Input_Output/VTK/save_wing_vtk.py b/trunk/SUAVE/Input_Output/VTK/save_wing_vtk.py
index 35a470d..0482b02 100644
--- a/trunk/SUAVE/Input_Output/VTK/save_wing_vtk.py
+++ b/trunk/SUAVE/Input_Output/VTK/save_wing_vtk.py
@@ -112,8 +112,8 @@ def save_wing_vtk(vehicle, wing_instance, settings, filename, Results,time_step,
         write_wing_vtk(Lwing,n_cw_L,n_sw_L,n_cp_L,L_Results,Lfile)
         write_wing_vtk(Rwing,n_cw_R,n_sw_R,n_cp_R,R_Results,Rfile)        
     else:
-        n_cw = VD.n_cw[0]
-        n_sw = VD.n_sw[0]
+        n_cw = VD_wing.n_cw[0]
+        n_sw = VD_wing.n_sw[0]
         
         VD_wing.XA1 += origin_offset[0]
         VD_wing.XA2 += origin_offset[0]
-- 
2.43.0


From a861c4a79124af8eadb695390a83776ba19b47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:29 +0000
Subject: [PATCH 53/65] fix: facilities cost of an aircraft follows the tooling
 design hours, not their cost

---
 .../Industrial_Costs/distribute_non_recurring_cost.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Costs/Correlations/Industrial_Costs/distribute_non_recurring_cost.py b/trunk/SUAVE/Methods/Costs/Correlations/Industrial_Costs/distribute_non_recurring_cost.py
index 4cab4aa..ccc5067 100644
--- a/trunk/SUAVE/Methods/Costs/Correlations/Industrial_Costs/distribute_non_recurring_cost.py
+++ b/trunk/SUAVE/Methods/Costs/Correlations/Industrial_Costs/distribute_non_recurring_cost.py
@@ -91,10 +91,10 @@ def distribute_non_recurring_cost(costs):
     # compute dimensional cost data, applying non-dimentional costs to each cost fraction
     engineering         *= nrec_engineering
     manuf_engineering   *= nrec_manufacturing
+    facilities           = nrec_facilities * tooling_design
     tooling_design      *= nrec_tooling_design
     tooling_production  *= nrec_tooling_production
     support             *= nrec_support
-    facilities           = nrec_facilities * tooling_design
 
     # pack output
     costs.industrial.non_recurring.cash_flow           = Data()
-- 
2.43.0


From 605731361be838d982a9f43a685b1a84d7d97c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:29 +0000
Subject: [PATCH 54/65] fix: a payload range diagram is not stored on the
 function that makes it

---
 trunk/SUAVE/Methods/Performance/payload_range.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/payload_range.py b/trunk/SUAVE/Methods/Performance/payload_range.py
index ba4f90a..013932d 100644
--- a/trunk/SUAVE/Methods/Performance/payload_range.py
+++ b/trunk/SUAVE/Methods/Performance/payload_range.py
@@ -8,7 +8,7 @@
 #  Imports
 # ----------------------------------------------------------------------
 
-from SUAVE.Core import Units
+from SUAVE.Core import Units, Data
 import time
 import numpy as np
 
@@ -172,11 +172,12 @@ def payload_range(vehicle,mission,cruise_segment_tag,reserves=0.):
     TOW.insert(0,0)
 
     # packing results
-    payload_range.range     = np.multiply(R,1.0*Units.nautical_mile / Units.m) # [m]
-    payload_range.payload   = PLD
-    payload_range.fuel      = FUEL
-    payload_range.takeoff_weight = TOW
-    payload_range.reserves = reserves
+    diagram                = Data()
+    diagram.range     = np.multiply(R,1.0*Units.nautical_mile / Units.m) # [m]
+    diagram.payload   = PLD
+    diagram.fuel      = FUEL
+    diagram.takeoff_weight = TOW
+    diagram.reserves = reserves
 
     # Write output file
     if iwrite:
@@ -224,4 +225,4 @@ def payload_range(vehicle,mission,cruise_segment_tag,reserves=0.):
         plt.grid(True)
         plt.show()
 
-    return payload_range
+    return diagram
-- 
2.43.0


From 05e3b340e762cccd7a20e067accab28cbbef5884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:29 +0000
Subject: [PATCH 55/65] fix: the corners of a payload range diagram close when
 fuel is limited by its tanks

---
 trunk/SUAVE/Methods/Performance/payload_range.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/payload_range.py b/trunk/SUAVE/Methods/Performance/payload_range.py
index 013932d..a56820d 100644
--- a/trunk/SUAVE/Methods/Performance/payload_range.py
+++ b/trunk/SUAVE/Methods/Performance/payload_range.py
@@ -96,9 +96,9 @@ def payload_range(vehicle,mission,cruise_segment_tag,reserves=0.):
 
     # Define payload range points
     #Point  = [ RANGE WITH MAX. PLD   , RANGE WITH MAX. FUEL , FERRY RANGE   ]
-    TOW     = [ MTOW                               , MTOW                   , OEW + MaxFuel ]
-    FUEL    = [ min(TOW[1] - OEW - MaxPLD,MaxFuel) , MaxFuel                , MaxFuel       ]
-    PLD     = [ MaxPLD                             , MTOW - MaxFuel - OEW   , 0.            ]
+    FUEL    = [ min(MTOW - OEW - MaxPLD,MaxFuel)   , MaxFuel                            , MaxFuel       ]
+    PLD     = [ MaxPLD                             , min(MTOW - MaxFuel - OEW , MaxPLD) , 0.            ]
+    TOW     = [ OEW + PLD[0] + FUEL[0]             , OEW + PLD[1] + FUEL[1]             , OEW + MaxFuel ]
 
     # allocating Range array
     R       = [0,0,0]
-- 
2.43.0


From 8ac5e8c01952ee053f57e99be258fb885125027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:29 +0000
Subject: [PATCH 56/65] fix: field lengths take the altitude of an airport in
 meters, as it is stored

---
 .../SUAVE/Methods/Performance/estimate_landing_field_length.py  | 2 +-
 .../SUAVE/Methods/Performance/estimate_take_off_field_length.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py b/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py
index 806452d..46b0a0c 100644
--- a/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py
+++ b/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py
@@ -53,7 +53,7 @@ def estimate_landing_field_length(vehicle,analyses,airport):
     # Unpack
     # ==============================================
     atmo            = airport.atmosphere
-    altitude        = airport.altitude * Units.ft
+    altitude        = airport.altitude
     delta_isa       = airport.delta_isa
     weight          = vehicle.mass_properties.landing
     reference_area  = vehicle.reference_area
diff --git a/trunk/SUAVE/Methods/Performance/estimate_take_off_field_length.py b/trunk/SUAVE/Methods/Performance/estimate_take_off_field_length.py
index d023797..a1b3d3c 100644
--- a/trunk/SUAVE/Methods/Performance/estimate_take_off_field_length.py
+++ b/trunk/SUAVE/Methods/Performance/estimate_take_off_field_length.py
@@ -65,7 +65,7 @@ def estimate_take_off_field_length(vehicle,analyses,airport,compute_2nd_seg_clim
         # Unpack
     # ==============================================
     atmo            = analyses.atmosphere
-    altitude        = airport.altitude * Units.ft
+    altitude        = airport.altitude
     delta_isa       = airport.delta_isa
     weight          = vehicle.mass_properties.takeoff
     reference_area  = vehicle.reference_area
-- 
2.43.0


From 0bc1d507a02323867e43a6c4bc23a222e8b24ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:30 +0000
Subject: [PATCH 57/65] fix: landing constants are those of the vehicle

---
 .../SUAVE/Methods/Performance/estimate_landing_field_length.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py b/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py
index 46b0a0c..607962d 100644
--- a/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py
+++ b/trunk/SUAVE/Methods/Performance/estimate_landing_field_length.py
@@ -102,7 +102,7 @@ def estimate_landing_field_length(vehicle,analyses,airport):
 
     # Defining landing distance equation coefficients
     try:
-        landing_constants = config.landing_constants # user defined
+        landing_constants = vehicle.landing_constants # user defined
     except:  # default values - According to Torenbeek book
         landing_constants = np.zeros(3)
         landing_constants[0] = 250.
-- 
2.43.0


From 5356ed6e6b4b929c1964dd308669405afe8485b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:30 +0000
Subject: [PATCH 58/65] fix: finding a takeoff weight leaves the weights of the
 vehicle as they were

---
 .../Methods/Performance/find_take_off_weight_given_tofl.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Performance/find_take_off_weight_given_tofl.py b/trunk/SUAVE/Methods/Performance/find_take_off_weight_given_tofl.py
index 787a872..845e089 100644
--- a/trunk/SUAVE/Methods/Performance/find_take_off_weight_given_tofl.py
+++ b/trunk/SUAVE/Methods/Performance/find_take_off_weight_given_tofl.py
@@ -47,7 +47,7 @@ def find_take_off_weight_given_tofl(vehicle,analyses,airport,target_tofl):
     tow_upper = 1.10 * vehicle.mass_properties.max_takeoff
 
     #saving initial reference takeoff weight
-    tow_ref = vehicle.mass_properties.max_takeoff
+    tow_ref = vehicle.mass_properties.takeoff
 
     tow_vec = np.linspace(tow_lower,tow_upper,50)
     tofl    = np.zeros_like(tow_vec)
@@ -63,6 +63,6 @@ def find_take_off_weight_given_tofl(vehicle,analyses,airport,target_tofl):
         max_tow[id] = np.interp(toflid,tofl,tow_vec)
 
     #reset the initial takeoff weight
-    vehicle.mass_properties.max_takeoff = tow_ref
+    vehicle.mass_properties.takeoff = tow_ref
 
     return max_tow
\ No newline at end of file
-- 
2.43.0


From 1102684a9c09e82fb3b6f0dbfb6f6081a7752f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:30 +0000
Subject: [PATCH 59/65] fix: gust speed Vb of commuters with the square of 1.32

---
 trunk/SUAVE/Methods/Performance/V_n_diagram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Performance/V_n_diagram.py b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
index e5748ce..b9c8d49 100644
--- a/trunk/SUAVE/Methods/Performance/V_n_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
@@ -303,7 +303,7 @@ def V_n_diagram(vehicle,analyses,weight,altitude,delta_ISA):
             Uref_dive   = 0.5 * Uref_cruise
             
         # Minimum Cruise speed Vc_min
-        coefs = [1, -Uref_cruise * (2.64 + (Kg * CLa * airspeeds_pos[1]**2)/(498 * wing_loading)), 1.72424 * Uref_cruise**2 - airspeeds_pos[1]**2]
+        coefs = [1, -Uref_cruise * (2.64 + (Kg * CLa * airspeeds_pos[1]**2)/(498 * wing_loading)), 1.7424 * Uref_cruise**2 - airspeeds_pos[1]**2]
         Vc1   = max(np.roots(coefs))
         
     elif FAR_part_number == 23:           
-- 
2.43.0


From a7d40c12c2cc114749a56fdde2c11e5c284c213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:30 +0000
Subject: [PATCH 60/65] fix: equal maneuver speeds raise the design cruise
 speed too

---
 trunk/SUAVE/Methods/Performance/V_n_diagram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Performance/V_n_diagram.py b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
index b9c8d49..305950a 100644
--- a/trunk/SUAVE/Methods/Performance/V_n_diagram.py
+++ b/trunk/SUAVE/Methods/Performance/V_n_diagram.py
@@ -284,7 +284,7 @@ def V_n_diagram(vehicle,analyses,weight,altitude,delta_ISA):
     if Va_neg > Vc and Va_neg > Va_pos:
         flog.write('        Negative Va > Vc. Setting Vc = 1.15 * Va...\n')
         Vc = 1.15 * Va_neg
-    elif Va_pos > Vc and Va_neg < Va_pos:
+    elif Va_pos > Vc and Va_neg <= Va_pos:
         flog.write('        Positive Va > Vc. Setting Vc = 1.15 * Va...\n')
         Vc = 1.15 * Va_pos
     
-- 
2.43.0


From 4dfdf1f4066079234f2d3da5793611f4e3834b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:30 +0000
Subject: [PATCH 61/65] fix: the Mach number of an area is found for every row
 of a batch

---
 trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py b/trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py
index 2134249..ea98a4a 100644
--- a/trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py
+++ b/trunk/SUAVE/Methods/Propulsion/nozzle_calculations.py
@@ -64,7 +64,9 @@ def mach_area(area_ratio, gamma, subsonic):
     Me            [dimensionless]  
     
     """
-    func = lambda Me : (area_ratio**2. - ((1./Me)**2.)*(((2./(gamma+1.))*(1.+((gamma-1.)/2.)*Me**2.))**((gamma+1.)/((gamma-1.)))))[:,0]
+    # the solver works on flat arrays: each unknown goes with its own gamma
+    g    = gamma[:,0]
+    func = lambda Me : area_ratio**2. - ((1./Me)**2.)*(((2./(g+1.))*(1.+((g-1.)/2.)*Me**2.))**((g+1.)/((g-1.))))
     if subsonic:
         Me_initial_guess = np.ones_like(gamma)*0.01
     else:
-- 
2.43.0


From 85c4f4368616e20f81e4bf64adc270f72008c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:30 +0000
Subject: [PATCH 62/65] fix: an afterburner takes the fuel burned before it
 into account and leaves the combustor's as it was

---
 trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py b/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py
index e05f61d..abfdf54 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py
@@ -192,7 +192,7 @@ class Turbojet_Super(Network):
             #link the core nozzle to the afterburner
             afterburner.inputs.stagnation_temperature              = low_pressure_turbine.outputs.stagnation_temperature
             afterburner.inputs.stagnation_pressure                 = low_pressure_turbine.outputs.stagnation_pressure   
-            afterburner.inputs.nondim_ratio                        = 1.0 + combustor.outputs.fuel_to_air_ratio
+            afterburner.inputs.nondim_mass_ratio                   = 1.0 + combustor.outputs.fuel_to_air_ratio
             
             #flow through the afterburner
             afterburner(conditions)
@@ -219,7 +219,8 @@ class Turbojet_Super(Network):
         thrust.inputs.fuel_to_air_ratio                        = combustor.outputs.fuel_to_air_ratio 
         if self.afterburner_active == True:
             # previous fuel ratio is neglected when the afterburner fuel ratio is calculated
-            thrust.inputs.fuel_to_air_ratio += afterburner.outputs.fuel_to_air_ratio
+            # a new value: the outputs of the combustor stay its own
+            thrust.inputs.fuel_to_air_ratio = combustor.outputs.fuel_to_air_ratio + afterburner.outputs.fuel_to_air_ratio
 
         #link the thrust component to the low pressure compressor 
         thrust.inputs.total_temperature_reference              = low_pressure_compressor.outputs.stagnation_temperature
-- 
2.43.0


From 6b0d829ce532cc71dcccdcb6326b8c765bda7d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:30 +0000
Subject: [PATCH 63/65] fix: stagnation temperature behind a supersonic
 combustor

---
 trunk/SUAVE/Components/Energy/Converters/Combustor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Combustor.py b/trunk/SUAVE/Components/Energy/Converters/Combustor.py
index 761ce24..3254573 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Combustor.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Combustor.py
@@ -337,7 +337,7 @@ class Combustor(Energy_Component):
         V_out  = V_in*(((1.+f*Vfx_V3)/(1.+f))-(Cfb/(2.*(1.+f)))) 
         T_out  = ((T_in/(1.+f))*(1.+(1./(Cpb*T_in ))*(eta_b*f*htf+f*hf+f*Cpb*Tref+(1.+f*Vf_V3*Vf_V3)*V_in*V_in/2.))) - V_out*V_out/(2.*Cpb) 
         M_out  = V_out/(np.sqrt(gamma_b*R*T_out)) 
-        Tt_out = T_out*(1.+(gamma_b-1.)/2.)*M_out*M_out
+        Tt_out = T_out*(1.+(gamma_b-1.)/2.*M_out*M_out)
         
         # compute the exity static and stagnation conditions 
         ht_out = Cpb*Tt_out 
-- 
2.43.0


From 034690b4d33a83138ec8c85b8a34a5be2fdd0352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:30 +0000
Subject: [PATCH 64/65] fix: the flow and gas of a scramjet follow the
 conditions, not those it was sized at

---
 trunk/SUAVE/Components/Energy/Networks/Scramjet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Scramjet.py b/trunk/SUAVE/Components/Energy/Networks/Scramjet.py
index 3901ec9..5020ff5 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Scramjet.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Scramjet.py
@@ -129,6 +129,8 @@ class Scramjet(Network):
         core_nozzle.inputs.static_pressure                     = combustor.outputs.static_pressure 
         core_nozzle.inputs.velocity                            = combustor.outputs.velocity 
         core_nozzle.inputs.fuel_to_air_ratio                   = combustor.outputs.fuel_to_air_ratio  
+        core_nozzle.inputs.specific_heat_constant_pressure     = combustor.outputs.specific_heat_constant_pressure
+        core_nozzle.inputs.isentropic_expansion_factor         = combustor.outputs.isentropic_expansion_factor
 
         #flow through the core nozzle 
         core_nozzle.compute_scramjet(conditions)   
@@ -147,6 +149,8 @@ class Scramjet(Network):
         thrust.inputs.stag_temp_lpt_exit                       = core_nozzle.outputs.stagnation_temperature 
         thrust.inputs.stag_press_lpt_exit                      = core_nozzle.outputs.stagnation_pressure 
         thrust.inputs.number_of_engines                        = number_of_engines 
+        thrust.inputs.total_temperature_reference              = core_nozzle.outputs.stagnation_temperature
+        thrust.inputs.total_pressure_reference                 = core_nozzle.outputs.stagnation_pressure
 
         thrust.inputs.flow_through_core                        = 1.0 #scaled constant to turn on core thrust computation 
 
-- 
2.43.0


From 3f5f9e03f839372772585259264e34ad6631c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:30 +0000
Subject: [PATCH 65/65] fix: jets report their stagnation pressure, and jet
 noise uses the static one by name

---
 trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py       | 2 +-
 trunk/SUAVE/Components/Energy/Networks/Turbofan.py         | 4 ++--
 trunk/SUAVE/Methods/Noise/Fidelity_One/Engine/noise_SAE.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py b/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
index c33167b..20bb0df 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
@@ -164,7 +164,7 @@ class Ducted_Fan(Network):
             exit_static_temperature             = fan_nozzle.outputs.static_temperature,
             exit_static_pressure                = fan_nozzle.outputs.static_pressure,
             exit_stagnation_temperature         = fan_nozzle.outputs.stagnation_temperature,
-            exit_stagnation_pressure            = fan_nozzle.outputs.static_pressure,
+            exit_stagnation_pressure            = fan_nozzle.outputs.stagnation_pressure,
             exit_velocity                       = fan_nozzle.outputs.velocity
             )
         
diff --git a/trunk/SUAVE/Components/Energy/Networks/Turbofan.py b/trunk/SUAVE/Components/Energy/Networks/Turbofan.py
index 5a240b7..3990a78 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Turbofan.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Turbofan.py
@@ -279,7 +279,7 @@ class Turbofan(Network):
             exit_static_temperature             = core_nozzle.outputs.static_temperature,
             exit_static_pressure                = core_nozzle.outputs.static_pressure,
             exit_stagnation_temperature         = core_nozzle.outputs.stagnation_temperature,
-            exit_stagnation_pressure            = core_nozzle.outputs.static_pressure,
+            exit_stagnation_pressure            = core_nozzle.outputs.stagnation_pressure,
             exit_velocity                       = core_nozzle.outputs.velocity
             )
         
@@ -287,7 +287,7 @@ class Turbofan(Network):
             exit_static_temperature             = fan_nozzle.outputs.static_temperature,
             exit_static_pressure                = fan_nozzle.outputs.static_pressure,
             exit_stagnation_temperature         = fan_nozzle.outputs.stagnation_temperature,
-            exit_stagnation_pressure            = fan_nozzle.outputs.static_pressure,
+            exit_stagnation_pressure            = fan_nozzle.outputs.stagnation_pressure,
             exit_velocity                       = fan_nozzle.outputs.velocity
             )
         
diff --git a/trunk/SUAVE/Methods/Noise/Fidelity_One/Engine/noise_SAE.py b/trunk/SUAVE/Methods/Noise/Fidelity_One/Engine/noise_SAE.py
index bf67f59..9fb78b9 100644
--- a/trunk/SUAVE/Methods/Noise/Fidelity_One/Engine/noise_SAE.py
+++ b/trunk/SUAVE/Methods/Noise/Fidelity_One/Engine/noise_SAE.py
@@ -83,11 +83,11 @@ def noise_SAE(turbofan,segment,analyses,config,settings,ioprint = 0, filename =
     # unpack 
     Velocity_primary       = turbofan.core_nozzle.noise_speed * 0.92*(turbofan.design_thrust/52700.)   
     Temperature_primary    = segment.conditions.noise.sources.turbofan.core.exit_stagnation_temperature[:,0] 
-    Pressure_primary       = segment.conditions.noise.sources.turbofan.core.exit_stagnation_pressure[:,0] 
+    Pressure_primary       = segment.conditions.noise.sources.turbofan.core.exit_static_pressure[:,0] 
 
     Velocity_secondary     = turbofan.fan_nozzle.noise_speed * (turbofan.design_thrust/52700.) 
     Temperature_secondary  = segment.conditions.noise.sources.turbofan.fan.exit_stagnation_temperature[:,0] 
-    Pressure_secondary     = segment.conditions.noise.sources.turbofan.fan.exit_stagnation_pressure[:,0] 
+    Pressure_secondary     = segment.conditions.noise.sources.turbofan.fan.exit_static_pressure[:,0] 
 
     N1                     = turbofan.fan.rotation* 0.92*(turbofan.design_thrust/52700.)
     Diameter_primary       = turbofan.core_nozzle_diameter
-- 
2.43.0

