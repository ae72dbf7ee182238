From 5d8f4dcb623bb33ab0a978e69307c9956e11c2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 01/39] fix: do not modify the caller's x0, and shape default
 bounds for column x0

---
 sqpdfo/sqpdfo.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index cba39ab..affe9c5 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -108,13 +108,16 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         print('Error: No starting values of x given !')
         return x, lm, info
     elif not isinstance(x0, np.ndarray):
-        x0 = array([x0])
+        x0 = array([x0], dtype=float)
+    else:
+        # work on a copy: x0 may be moved away from the bounds
+        x0 = array(x0, dtype=float)
     if lb is None:
-        lb = -1e20 * np.ones_like(x0).T
+        lb = -1e20 * np.ones((x0.size, 1))
     elif not isinstance(lb, np.ndarray):
         lb = array([lb]).T
     if ub is None:
-        ub = 1e20 * np.ones_like(x0).T
+        ub = 1e20 * np.ones((x0.size, 1))
     elif not isinstance(ub, np.ndarray):
         ub = array([ub]).T
 
-- 
2.43.0


From e318af33a1637525fb7327ca597dabb19203f7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 02/39] fix: bfgs_restart raised NameError when set and
 AttributeError when not given

---
 sqpdfo/sqpdfo_computeHessian.py | 2 +-
 sqpdfo/sqpdfo_options.py        | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_computeHessian.py b/sqpdfo/sqpdfo_computeHessian.py
index 196a45e..821d1a1 100644
--- a/sqpdfo/sqpdfo_computeHessian.py
+++ b/sqpdfo/sqpdfo_computeHessian.py
@@ -56,7 +56,7 @@ def sqpdfo_computeHessian_(simul=None,x=None,null_step=None,constrained_pbl=None
             # compute the BFGS approximation of the Hessian of the Lagrangian 
             # (with Powell corrections)
             if options.bfgs_restart > 0 \
-            and mod_(info.nsimul[1],options.bfgs_restart) == 0:
+            and info.nsimul[1] % options.bfgs_restart == 0:
                 szM = size_(M)
                 M=eye_(szM[0])
                 pc=2.0
diff --git a/sqpdfo/sqpdfo_options.py b/sqpdfo/sqpdfo_options.py
index 15f7730..df9714e 100644
--- a/sqpdfo/sqpdfo_options.py
+++ b/sqpdfo/sqpdfo_options.py
@@ -144,6 +144,9 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
     else:
         options.hess_approx = values.model  # default value
 
+    if not isfield_(options, 'bfgs_restart'):
+        options.bfgs_restart = 0  # default value (no restart)
+
     if isfield_(options, 'whichmodel'):
         if 'subbasis' == options.whichmodel.lower().replace(" ", ""):
             options.whichmodel = values.subbasis
-- 
2.43.0


From d36bac6a956eeb3230c2bd5a25a857f3571330ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 03/39] fix: minimum Frobenius-norm models (whichmodel
 'frobnorm') raised on every underdetermined set

---
 sqpdfo/bcdfo_computeLj.py | 5 +++--
 sqpdfo/bcdfo_computeP.py  | 7 ++++---
 sqpdfo/bcdfo_evalL.py     | 9 +++++----
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/sqpdfo/bcdfo_computeLj.py b/sqpdfo/bcdfo_computeLj.py
index 1ed35fc..ad3bb20 100644
--- a/sqpdfo/bcdfo_computeLj.py
+++ b/sqpdfo/bcdfo_computeLj.py
@@ -83,10 +83,11 @@ def bcdfo_computeLj_(QZ=None,RZ=None,j=None,Y_=None,whichmodel=None,scale=None,s
             rhs=concatenate_([zeros_(j - 1,1),numpy.array([[1]]),zeros_(p1 + n +1 - j,1)],axis=0)
             mualpha=(numpy.linalg.solve(RZ,(QZ.T.dot(rhs)))).T
 #       constant and linear part of P
-            Lj[0:n + 1]=mualpha[p1:p1 + n + 1].T
+            Lj=zeros_(1,q)
+            Lj[0,0:n + 1]=mualpha[0,p1:p1 + n + 1]
 #       quadratic part of P
             M=bcdfo_evalZ_(Y,q).T
-            Lj[n + 1:q]=M[:,n + 1:q].T.dot( mualpha[0:p1]).T
+            Lj[0,n + 1:q]=M[:,n + 1:q].T.dot( mualpha[0,0:p1])
     elif (whichmodel == 2):
 #    build Minimum L2 norm Lagrange polynomials (p1 <= q)
 #    (QZ and RZ are the factors of Z = M')
diff --git a/sqpdfo/bcdfo_computeP.py b/sqpdfo/bcdfo_computeP.py
index 716d14e..9c762a0 100644
--- a/sqpdfo/bcdfo_computeP.py
+++ b/sqpdfo/bcdfo_computeP.py
@@ -98,13 +98,14 @@ def bcdfo_computeP_(QZ=None,RZ=None,Y_=None,fY=None,whichmodel=None,P_old=None,i
 
             P=array([])
             for i in range(0,n_rhs):
-                rhs=concatenate_([fY[i,:],zeros_(1,n + 1)], axis=1)
+                rhs=concatenate_([fY[[i],:],zeros_(1,n + 1)], axis=1)
                 mualpha=(numpy.linalg.solve(RZ,(QZ.T.dot(rhs.T)))).T
 #                 constant and linear part of P
-                P_i[0:n + 1]=mualpha[p1:p1 + n + 1].T
+                P_i=zeros((1,q))
+                P_i[0,0:n + 1]=mualpha[0,p1:p1 + n + 1]
 #                 quadratic part of P
                 M=bcdfo_evalZ_(Y,q).T
-                P_i[n + 1:q]=M[:,n + 1:q].T.dot(mualpha[0:p1].T)
+                P_i[0,n + 1:q]=M[:,n + 1:q].T.dot(mualpha[0,0:p1])
                 P=concatenate_([P, P_i])
     elif (whichmodel == 2):
         P=(QZ.dot((numpy.linalg.solve(RZ.T,fY.T)))).T
diff --git a/sqpdfo/bcdfo_evalL.py b/sqpdfo/bcdfo_evalL.py
index 9bcad8a..7322bfd 100644
--- a/sqpdfo/bcdfo_evalL.py
+++ b/sqpdfo/bcdfo_evalL.py
@@ -2,6 +2,7 @@
 
 from sqpdfo.runtime import *
 from sqpdfo.bcdfo_evalP import bcdfo_evalP_
+from sqpdfo.bcdfo_evalZ import bcdfo_evalZ_
 import numpy
 from copy import copy
     
@@ -55,7 +56,7 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
     n,p1=size_(Y,nargout=2)
     I=eye_(p1)
     lc=length_(choice_set)
-    q=((n + 1) * (n + 2)) / 2
+    q=int(((n + 1) * (n + 2)) / 2)
     values=zeros_(p1,1)
     if (whichmodel == 3 and p1 < q):
 #     for underdetermined regression model use min l2-norm model
@@ -67,7 +68,7 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
         if (p1 == n + 1 or p1 == q):
 #        evaluate Minimum L2 norm Lagrange polynomial (p1 == n+1 or p1 == q)
 
-            values[choice_set]=bcdfo_evalP_(I[choice_set,:] .dot( (QZ / RZ.T)),x,xbase,scale,shift_Y)
+            values[choice_set]=bcdfo_evalP_(I[choice_set,:] .dot( numpy.linalg.solve(RZ,QZ.T).T),x,xbase,scale,shift_Y)
         else:
 #       evaluate Minimum Frobenius norm Lagrange polynomial (p1 <= q)
 #
@@ -83,10 +84,10 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
             M=bcdfo_evalZ_(Y,q).T
             MQ=M[:,n + 1:q]
             if (shift_Y):
-                phi=bcdfo_evalZ_((x - xbase) * scale[1],q)
+                phi=bcdfo_evalZ_((x.reshape(-1,1) - xbase.reshape(-1,1)) * scale[1],q)
             else:
                 phi=bcdfo_evalZ_(x,q)
-            values[choice_set]=concatenate_([  I[choice_set,:],  zeros_(lc,n + 1).dot(QZ .dot(numpy.linalg.solve(RZ.T,concatenate_([MQ.dot(phi[n + 1:q]),phi[0:n + 1]]))))],axis=1)
+            values[choice_set]=concatenate_([I[choice_set,:],zeros_(lc,n + 1)],axis=1).dot(QZ.dot(numpy.linalg.solve(RZ.T,concatenate_([MQ.dot(phi[n + 1:q]),phi[0:n + 1]]))))
     elif (whichmodel == 2):
 #    evaluate Minimum L2 norm Lagrange polynomial (p1 <= q)
         if (p1 < q):
-- 
2.43.0


From fee87ee74537228f4c5a6c2ee9d8418cba26f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 04/39] fix: hard case of the More-Sorensen solver raised
 ValueError (ragged polynomial coefficients)

---
 sqpdfo/bcdfo_solve_TR_MS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index 253435a..bd3ea66 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -282,7 +282,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
     mu,imu=min_(numpy.diag(D),nargout=2)
     
     if (verbose):
-        gamma=abs_(V[:,imu].reshape(1,-1).dot( g))
+        gamma=abs(V[:,imu].reshape(1,-1).dot( g))
         disp_(' bcdfo_solve_TR_MS : ============ pseudo hard case: gamma = ',str(gamma),' ||g|| = ',str(norm_(g)))
         
     #  Compute the critical step and its orthogonal complement along the
@@ -303,7 +303,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         nscri=0
         
     if (nscri <= Delta):
-        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri),nscri ** 2 - Delta ** 2])
+        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri)[0,0],nscri ** 2 - Delta ** 2])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
     else:
-- 
2.43.0


From 1c1517c4c15ef98e73259ce94de5ecf239d1d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 05/39] fix: problems with infinite bounds and no constraints
 raised in the first optimality check

---
 sqpdfo/sqpdfo_prelim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 276812c..54a6eef 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -580,6 +580,9 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             lm=copy(lm0)
             if options.verbose >= 4:
                 fprintf_(options.fout,'  . |lm|_2                          %8.2e\n'%(norm_(lm)))
+    else:
+        # no bounds and no constraints: all multipliers are zero
+        lm=zeros_(n,1)
 
     # Initial optimality
 
-- 
2.43.0


From cbb327bfb581f67952ca20d436c54eed67b2de0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 06/39] fix: constraint gradients undefined when the first step
 of a linear model is rejected

---
 sqpdfo/sqpdfo_main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 9393d60..4e43482 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -186,12 +186,14 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
     
     if mi > 0:
         ciY=copy(ciX[:,ind_Y])
+        gci=copy(info.ai)
     else:
         ciY=array([])
         gci=array([])
         
     if me > 0:
         ceY=copy(ceX[:,ind_Y])
+        gce=copy(info.ae)
     else:
         ceY=array([])
         gce=array([])
-- 
2.43.0


From 6adeb7959c5d757a4cf9295e809a30cab80be281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 07/39] fix: failed evaluation during a repair of the
 interpolation set raised IndexError

---
 sqpdfo/sqpdfo_main.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 4e43482..44bc305 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -513,6 +513,14 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                    sstatus,dstatus,scaleX,scalefacX,info,\
                                    options,values,nargout=10)
                                    
+                if info.flag:
+
+                    # evaluation failed: stop at the best point found so far
+
+                    return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
+                    cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
+                    ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
+
                 fY[j]=fX[m]
                 
                 if mi > 0:
-- 
2.43.0


From 62295d93ad0f010895b38d6c987e11ab022a34b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 08/39] fix: info.f was the value of the failed trial point
 instead of the value at the returned x

---
 sqpdfo/sqpdfo.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index affe9c5..c1a988e 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -342,10 +342,9 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     #  Rescale x if necessary
     if (scaleX):
         x=x / scalefacX
-    info_best=copy(info)
-    info_best.f=fx
+    info.f=fx
     x=X[:,i_xbest]
-    sqpdfo_finish_(nb,mi,me,info_best,options,values)
+    sqpdfo_finish_(nb,mi,me,info,options,values)
 
     #---------------------------------------
     # Recover the results
-- 
2.43.0


From 8515166f1d98c5959ced459aa2248848783ff561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 09/39] fix: hard case of the More-Sorensen solver raised
 ValueError for a 1x1 radius

---
 sqpdfo/bcdfo_solve_TR_MS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index bd3ea66..8a8119a 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -303,7 +303,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         nscri=0
         
     if (nscri <= Delta):
-        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri)[0,0],nscri ** 2 - Delta ** 2])
+        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri)[0,0],numpy.asarray(nscri ** 2 - Delta ** 2).item()])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
     else:
-- 
2.43.0


From f3c6c8dc3130e45e9f978436599c0a016dcbbc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 10/39] fix: constraint values of the trial point were dropped
 when all constraint values are zero

---
 sqpdfo/sqpdfo_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 44bc305..ad627d1 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -796,7 +796,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
         
             fxplus=copy(fX[m])
             
-            if ceX.any():
+            if me > 0:
                 ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])
                 ceX[ceX<=-1e25] = 10*min_(ceX[ceX>-1e25])
                 ceplus = copy(array([ceX[:,m]]).T)
-- 
2.43.0


From a59e550250335f75159c1910384319f308e66eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 11/39] fix: slacks of a run with inequalities were used by
 later runs without

---
 sqpdfo/sqpdfo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index c1a988e..85b887b 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -150,6 +150,11 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         lb = np.concatenate((lb, np.zeros((mi, 1))))
         ub = np.concatenate((ub, 1e20 * np.ones((mi, 1))))
 
+    else:
+        # no slacks (an earlier run may have left some)
+        glob.set_nbr_slacks(0)
+        glob.set_slacks(None)
+
     #  Set some constants
 
     func = sqpdfo_evalfgh_
-- 
2.43.0


From 77aa41fd146590f94beeb71c2ecba2e3efdc4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 12/39] fix: concurrent and nested runs used each other's
 functions and slacks

---
 sqpdfo/sqpdfo.py                  | 10 +++++
 sqpdfo/sqpdfo_global_variables.py | 67 ++++++++++++++++++-------------
 2 files changed, 48 insertions(+), 29 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 85b887b..1dbd53f 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -72,6 +72,16 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
 #   info.nsimul[1]: number of function evaluations
 #-----------------------------------------------------------------------
 """
+    # The state of a run in progress (if this is called by one of its
+    # functions) is put back at the end of this run.
+    state = glob.get_run_state()
+    try:
+        return sqpdfo_run_(options_,func_f,x0,lb,ub,me,mi,func_c,li,ui)
+    finally:
+        glob.set_run_state(state)
+
+
+def sqpdfo_run_(options_,func_f,x0,lb,ub,me,mi,func_c,li,ui):
 
     # Some preliminary initializations
     
diff --git a/sqpdfo/sqpdfo_global_variables.py b/sqpdfo/sqpdfo_global_variables.py
index 51e44fc..b1e8cca 100644
--- a/sqpdfo/sqpdfo_global_variables.py
+++ b/sqpdfo/sqpdfo_global_variables.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 import sys
+import threading
 import types
 
 """
@@ -26,16 +27,30 @@ class sqpdfo_global_variables:
     threshold = 1e-8  # Threshold for violated bounds
     global check_condition
     check_condition = 1  # Check condition of the interpolation matrix regularly
-    global simul_not_initialized
-    simul_not_initialized = 1  # Initial value
-    global filename_f
-    filename_f = None
-    global filename_cons
-    filename_cons = None
-    global nbr_slacks
-    nbr_slacks = 0
-    global slacks
-    slacks = None
+
+
+class _run_state(threading.local):
+    """
+    State which belongs to the optimization run in progress. It is local to the
+    calling thread, so that runs in different threads do not interfere.
+    """
+    def __init__(self):
+        self.simul_not_initialized = 1  # Initial value
+        self._iter = 0
+        self.filename_f = None
+        self.filename_cons = None
+        self.nbr_slacks = 0
+        self.slacks = None
+
+_run = _run_state()
+
+def get_run_state():
+    """Copy of the state of the run in progress"""
+    return dict(_run.__dict__)
+
+def set_run_state(state):
+    """Restore a state obtained by get_run_state()"""
+    _run.__dict__.update(state)
 
 def set_prob_cuter(prob_cuter, params):
     global cproblem
@@ -63,46 +78,40 @@ def set_fileoutput(value):
     
 
 def set_simul_not_initialized(value):
-    global simul_not_initialized
-    simul_not_initialized=value
+    _run.simul_not_initialized=value
     
 def set_foutxy(value):
     global foutxy
     foutxy=value
     
 def set_iter(value):
-    global _iter
-    _iter=value
+    _run._iter=value
     
 def set_check_condition(value):
     global check_condition
     check_condition=value
 
 def set_filename_f(value):
-    global filename_f
     if value is None:
         sys.exit('Error: Definition of the objective function in func() is missing !')
     elif isinstance(value, types.FunctionType):
-        filename_f = value
+        _run.filename_f = value
     else:
         sys.exit('Error: function handle for the objective is not of type function !')
 
 def set_filename_cons(value):
-    global filename_cons
     if isinstance(value, types.FunctionType):
-        filename_cons = value
+        _run.filename_cons = value
     elif value is '' or value is None:
-        filename_cons = ''
+        _run.filename_cons = ''
     else:
         sys.exit('Error: function handle for the constraints is not of type function !')
 
 def set_nbr_slacks(value):
-    global nbr_slacks
-    nbr_slacks = value
+    _run.nbr_slacks = value
     
 def set_slacks(value):
-    global slacks
-    slacks = value
+    _run.slacks = value
 
 def get_prob_cuter():
     return cproblem
@@ -114,25 +123,25 @@ def get_fileoutput():
     return fileoutput
     
 def get_simul_not_initialized():
-    return simul_not_initialized
+    return _run.simul_not_initialized
     
 def get_foutxy():
     return foutxy
     
 def get_iter():
-    return _iter
+    return _run._iter
     
 def get_check_condition():
     return check_condition
 
 def get_filename_f():
-    return filename_f
+    return _run.filename_f
 
 def get_filename_cons():
-    return filename_cons
+    return _run.filename_cons
     
 def get_nbr_slacks():
-    return nbr_slacks
+    return _run.nbr_slacks
     
 def get_slacks():
-    return slacks
+    return _run.slacks
-- 
2.43.0


From ea54f8ac7195d362d4528e02b19eb3e77c36bd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 13/39] fix: min_ changed the warning filters of the process

---
 sqpdfo/runtime.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sqpdfo/runtime.py b/sqpdfo/runtime.py
index a5049ae..305e0c8 100644
--- a/sqpdfo/runtime.py
+++ b/sqpdfo/runtime.py
@@ -166,23 +166,20 @@ def min_(a, d=None, nargout=None):#, nargout=0):
     """
     
     
-    #The warnigns happens when NaNs are involved, but the function returns in any case what we want, so no need to print the warnings or to worry about them.
-    warnings.simplefilter('ignore', RuntimeWarning)
+    #NaNs are ignored (fmin gives no warning when all numbers are NaN, in contrast to nanmin).
     if isempty_(a):
         ret = np.array([])                    
     elif d is not None:
         ret=np.fmin(a,d)
     else:
-        ret = np.nanmin(a)   
+        ret = np.fmin.reduce(a, axis=None)
     if nargout == 2:
         if isempty_(a):
             ret2 = np.array([])                                    
         else:
             ret2 = np.nanargmin(a)  
-        warnings.simplefilter('default', RuntimeWarning)
         return ret, ret2
     else:
-        warnings.simplefilter('default', RuntimeWarning)
         return ret                                
 
 
-- 
2.43.0


From 7eba76c551193f6948907051f3b696cfd11783c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 14/39] fix: failing write to the history file aborted the
 optimization

---
 sqpdfo/runtime.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/runtime.py b/sqpdfo/runtime.py
index 305e0c8..a06e3a2 100644
--- a/sqpdfo/runtime.py
+++ b/sqpdfo/runtime.py
@@ -73,7 +73,7 @@ def fopen_(*args):
         fp = open(*args)
         assert fp != -1
         return fp
-    except:
+    except OSError:
         return -1
                                 
 def fclose_(*args):
@@ -83,7 +83,11 @@ def fclose_(*args):
     if args[0] == -1:
         print("No file to close, continue...")
     else:
-        args[0].close()
+        try:
+            args[0].close()
+        except OSError:
+            # close() flushes: the disk may be full (the file is closed anyway)
+            print("File could not be written completely, continue...")
 
 #Unused functions
 #def fullfile_(*args):
@@ -363,7 +367,10 @@ def fprintf_(fid,*args, **kwargs):
         print(fid + out, end=' ')
     elif hasattr(fid, "read"):
         # writes to file
-        print(out, end=' ', file=fid)
+        try:
+            print(out, end=' ', file=fid)
+        except OSError:
+            print("File could not be written, continue...")
     else:
         print(fid + out, end=' ')
         print('### Warning from runtime.py: unknown file identifier type (int, str and file are known) ###')
-- 
2.43.0


From 95699ac27dda873f62daad4acdc5e78f7c2e9743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 15/39] fix: interrupts and memory errors inside the optimizer
 were swallowed

---
 sqpdfo/runtime.py                   | 4 ++--
 sqpdfo/sqpdfo_compute_multiplier.py | 2 +-
 sqpdfo/sqpdfo_evalfgh.py            | 2 +-
 sqpdfo/sqpdfo_solve_TR_bc.py        | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqpdfo/runtime.py b/sqpdfo/runtime.py
index a06e3a2..c120ac8 100644
--- a/sqpdfo/runtime.py
+++ b/sqpdfo/runtime.py
@@ -27,7 +27,7 @@ def isvector_or_scalar_(a):
     """
     try:
         return a.size and a.ndim-a.shape.count(1) <= 1
-    except:
+    except AttributeError:
         return False
 
 
@@ -294,7 +294,7 @@ def chol_(A,nargout=2):
     try: #there is in python a exception when the matrix is not positive definite, which does not occur on matlab
         R = np.linalg.cholesky(A).T
         p = 0
-    except:
+    except np.linalg.LinAlgError:
         R = np.array([])
         p = 1
     return R,p   
diff --git a/sqpdfo/sqpdfo_compute_multiplier.py b/sqpdfo/sqpdfo_compute_multiplier.py
index 8328922..b80f1f2 100644
--- a/sqpdfo/sqpdfo_compute_multiplier.py
+++ b/sqpdfo/sqpdfo_compute_multiplier.py
@@ -56,7 +56,7 @@ def sqpdfo_compute_multiplier_(x=None,lb=None,ub=None,info_=None,\
     # we get this value, otherwise we take '1' by default.
     try:
         check_condition = glob.get_check_condition()
-    except:
+    except NameError:
         check_condition = 1
 
     # Initialization
diff --git a/sqpdfo/sqpdfo_evalfgh.py b/sqpdfo/sqpdfo_evalfgh.py
index b5ffc06..a808c30 100644
--- a/sqpdfo/sqpdfo_evalfgh.py
+++ b/sqpdfo/sqpdfo_evalfgh.py
@@ -34,7 +34,7 @@ def sqpdfo_evalfgh_(key=None,xy=None,lm=None,*args,**kwargs):
     #we get this value, otherwise we take '1' by default.
     try:
         fileoutput = get_fileoutput()
-    except:
+    except NameError:
         fileoutput=1  
 
     # On the output arguments
diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index 9dbf7d1..dec2a47 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -33,7 +33,7 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
     #we get this value, otherwise we take '1' by default.
     try:
         check_condition=glob.get_check_condition()
-    except:
+    except NameError:
         check_condition=1    
           
     threshold=glob.get_threshold()
-- 
2.43.0


From 3a1241ec5a0ba002d5f39191162ea73c6e980685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 16/39] fix: problems with fixed variables (equal bounds)
 raised in the first evaluation

---
 sqpdfo/sqpdfo.py             | 10 +++++-----
 sqpdfo/sqpdfo_augmX_evalf.py |  7 +++++--
 sqpdfo/sqpdfo_prelim.py      | 10 +++++-----
 sqpdfo/sqpdfo_solve_TR_bc.py | 11 ++++++++++-
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 1dbd53f..49c12c0 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -347,11 +347,11 @@ def sqpdfo_run_(options_,func_f,x0,lb,ub,me,mi,func_c,li,ui):
     #  Re-assemble gradient at return
     if (nfix > 0):
         I=eye_(n + nfix)
-        x=I[:,indfix] * xfix[indfix] + I[:,indfree].dot(x)
-        gx=I[:,indfix] * zeros_(nfix,1) + I[:,indfree].dot(gx)
-        Ilm=eye_(n + nfix + me + mi)
-        indfree_lm=setdiff_(range(0,n + nfix + me + mi),indfix)
-        lm=Ilm[:,indfix] * zeros_(nfix,1) + Ilm[:,indfree_lm] * lm
+        x=I[:,indfix].dot(xfix[indfix]) + I[:,indfree].dot(x)
+        gx=I[:,indfix].dot(zeros_(nfix,1)) + I[:,indfree].dot(gx)
+        Ilm=eye_(length_(lm) + nfix)
+        indfree_lm=setdiff_(range(0,length_(lm) + nfix),indfix)
+        lm=Ilm[:,indfix].dot(zeros_(nfix,1)) + Ilm[:,indfree_lm].dot(lm)
         n=n + nfix
 
     #  Rescale x if necessary
diff --git a/sqpdfo/sqpdfo_augmX_evalf.py b/sqpdfo/sqpdfo_augmX_evalf.py
index d802a1e..a003d42 100644
--- a/sqpdfo/sqpdfo_augmX_evalf.py
+++ b/sqpdfo/sqpdfo_augmX_evalf.py
@@ -80,8 +80,11 @@ def sqpdfo_augmX_evalf_(f=None,y=None,m=None,X_=None,fX_=None,ciX_=None,ceX_=Non
     #  Augment X with full-dimensional y, scale if user-defined and evaluate f at y
 
     if (nfix > 0):
-        yfull=I[:,indfix] * xfix[indfix] + I[:,indfree] * y
-        X[:,m]=yfull
+        yfull=I[:,indfix].dot(xfix[indfix]) + I[:,indfree].dot(y)
+        try:
+            X[:,m]=yfull
+        except IndexError:
+            X=concatenate_([X,yfull],axis=1)
         if (scaleX):
             yfull=yfull / scalefacX
         info.nsimul[1]=info.nsimul[1] + 1
diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 54a6eef..182712f 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -13,7 +13,7 @@ from sqpdfo.sqpdfo_compute_multiplier import sqpdfo_compute_multiplier_
 from sqpdfo.sqpdfo_optimality import sqpdfo_optimality_
 import sqpdfo.sqpdfo_global_variables as glob
 from copy import copy
-from numpy import array, arange
+from numpy import append, array, arange
 from sqpdfo.helper import *
 
 
@@ -191,7 +191,7 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
         if (temp[j] < Delta0 + Delta0):
             if (temp[j] == zero):
                 nfix=nfix + 1
-                indfix=concatenate_([indfix,j],axis=1)
+                indfix=append(indfix,j).astype(int)
                 vstatus[j]=c.alwaysfixed
                 xfix[j]=lb[j]
                 continue
@@ -243,7 +243,7 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
                 cur_degree=2 * nfree + 1
             else:
                 if (cur_degree == pquad):
-                    cur_degree=((nfree + 1) * (nfree + 2)) / 2
+                    cur_degree=((nfree + 1) * (nfree + 2)) // 2
         if (rep_degree == plin):
             rep_degree=nfree + 1
         else:
@@ -251,11 +251,11 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
                 rep_degree=2 * nfree + 1
             else:
                 if (rep_degree == pquad):
-                    rep_degree=((nfree + 1) * (nfree + 2)) / 2
+                    rep_degree=((nfree + 1) * (nfree + 2)) // 2
                     
         plin=nfree + 1
         pdiag=2 * nfree + 1
-        pquad=((nfree + 1) * (nfree + 2)) / 2
+        pquad=((nfree + 1) * (nfree + 2)) // 2
         n=copy(nfree)
         
     else:
diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index dec2a47..6f55bb2 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -5,7 +5,7 @@ from sqpdfo.minq import Minq
 from sqpdfo.sqpdfo_compute_multiplier import *
 from sqpdfo.sqpdfo_truncated_cg import *
 from copy import copy
-from numpy import zeros_like
+from numpy import append, arange, zeros_like
 import sqpdfo.sqpdfo_global_variables as glob
 from sqpdfo.helper import *
 
@@ -39,6 +39,15 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
     threshold=glob.get_threshold()
     lm_computed=0
     n=length_(x)
+
+    # remove the bounds of the fixed variables
+    nfix=length_(lb) - nbr_slacks - n
+    if nfix > 0:
+        ind=append(indfree,range(n + nfix,length_(lb))).astype(int)
+        lb=lb[ind]
+        ub=ub[ind]
+        indfree=arange(0,n)
+
     I=eye_(n+nbr_slacks)
     xi=1.0  # trust radius contrictor (must be in (0,1))
     xnew=copy(x)
-- 
2.43.0


From c0b51fc944da19bc79d4aad91c949b3bc2360f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 17/39] fix: verbose output of unconstrained problems used an
 undefined option

---
 sqpdfo/sqpdfo_prelim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 182712f..7df522c 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -547,14 +547,14 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             fprintf_(options.fout,'  . gradient of the Lagrangian      %8.2e\n'%(options.tol_grad))
             fprintf_(options.fout,'  . feasibility                     %8.2e\n'%(options.tol_feas))
         else:
-            fprintf_(options.fout,'  . gradient of the cost function   %8.2e\n'%(options.tol[0]))
+            fprintf_(options.fout,'  . gradient of the cost function   %8.2e\n'%(options.tol_grad))
         fprintf_(options.fout,'  counters:\n')
         fprintf_(options.fout,'  . max iterations                  %4i\n'%(options.miter))
         fprintf_(options.fout,'  . max function evaluations        %4i\n'%(options.msimul))
         fprintf_(options.fout,'  algorithm:\n')
         fprintf_(options.fout,'  . globalization by trust regions\n')
         fprintf_(options.fout,'  various input/initial values:\n')
-        if  (nb + mi + me == 0) and (options.df1 > 0) and (info.f > 0):
+        if  (nb + mi + me == 0) and isfield_(options,'df1') and (options.df1 > 0) and (info.f > 0):
             fprintf_(options.fout,'  . expected initial decrease       %8.2e\n'%(options.df1 * info.f))
         if nb + mi > 0:
             fprintf_(options.fout,'  . infinite bound threshold        %8.2e\n'%(options.inf))
-- 
2.43.0


From 8399fc4924d03b4d6fc77705fd2ef651d2504225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 18/39] fix: objective values below -1e25 at the start raised
 or never terminated

---
 sqpdfo/sqpdfo_prelim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 7df522c..f9ddd86 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -399,9 +399,10 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
 
             #  Terminate with an error message if Delta0 becomes negligible wrt x0.
 
-            if (Delta0 < stallfact * norm_(x0)):
+            if (Delta0 < stallfact * max_(1.0,norm_(x0))):
                 disp_('Error: cannot find enough finite objective function values',\
                 ' in the neighbourhood of the starting point! Terminating.')
+                info.flag=values.fail_on_simul
 
                 #  including fixed variables at return
 
-- 
2.43.0


From 87f1b3e2289ee96f2b00d4736caa27df02be1b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 19/39] fix: infinite constraint values could be replaced by
 small values or values of the other sign

---
 sqpdfo/runtime.py       | 10 ++++++++++
 sqpdfo/sqpdfo_main.py   |  3 +--
 sqpdfo/sqpdfo_prelim.py |  3 +--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/runtime.py b/sqpdfo/runtime.py
index c120ac8..f62b50f 100644
--- a/sqpdfo/runtime.py
+++ b/sqpdfo/runtime.py
@@ -187,6 +187,16 @@ def min_(a, d=None, nargout=None):#, nargout=0):
         return ret                                
 
 
+def replace_inf_(a):
+    """
+    function which replaces the infinite elements of a (magnitude 1e25 and more)
+    by ten times the largest finite magnitude (but at least 10) with the same sign
+    """
+    big = abs(a) >= 1e25
+    a[big] = sign_(a[big]) * 10 * np.max(abs(a[~big]), initial=1.0)
+    return a
+
+
 def numel_(a):
     """
     function which returns the number of elements of a
diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index ad627d1..bf22d10 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -797,8 +797,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
             fxplus=copy(fX[m])
             
             if me > 0:
-                ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])
-                ceX[ceX<=-1e25] = 10*min_(ceX[ceX>-1e25])
+                ceX = replace_inf_(ceX)
                 ceplus = copy(array([ceX[:,m]]).T)
 
         # ---------------
diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index f9ddd86..4baae3c 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -379,8 +379,7 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             
         # Check for infinity constraint values
         
-        ceX[ceX>=1e25] = 10 * max_(ceX[ceX<1e25])
-        ceX[ceX<=-1e25] = 10 * min_(ceX[ceX>-1e25])
+        ceX = replace_inf_(ceX)
                     
         fY=copy(fX)
         ciY=copy(ciX)
-- 
2.43.0


From 3050b655dd44599bddb57f9eced1ad04251669b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 20/39] fix: better point at position 1 was ignored after a
 repair of the interpolation set

---
 sqpdfo/sqpdfo_find_smallf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 86e0dc4..18ffc85 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -116,7 +116,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
     #  Exchange best point only if the new smallest fmin is strictly smaller than fx
     #  (to avoid a change of the center of the interpolation at equal function values)
 
-    if (imin != 1 and fmin < meritY[0]):
+    if (imin != 0 and fmin < meritY[0]):
     
         QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,scale=\
         sqpdfo_swap_in_Y_(0,imin,QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,whichmodel,\
-- 
2.43.0


From e7e64a61475bd2827788536341e941aec235db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 21/39] hook: observation point at the top of the main loop
 (off unless SQPDFO_SIM_HOOKS=1)

---
 sqpdfo/simhooks.py    | 14 ++++++++++++++
 sqpdfo/sqpdfo_main.py |  6 ++++++
 2 files changed, 20 insertions(+)
 create mode 100644 sqpdfo/simhooks.py

diff --git a/sqpdfo/simhooks.py b/sqpdfo/simhooks.py
new file mode 100644
index 0000000..669e08c
--- /dev/null
+++ b/sqpdfo/simhooks.py
@@ -0,0 +1,14 @@
+# -*- coding: utf-8 -*-
+"""
+Observation point for simulation tests. Nothing is called unless the environment
+variable SQPDFO_SIM_HOOKS is 1 when the package is imported.
+"""
+import os
+
+enabled = os.environ.get('SQPDFO_SIM_HOOKS') == '1'
+probe = None  # set by the simulator: function of (name, dictionary of values)
+
+
+def emit(name, **values):
+    if probe is not None:
+        probe(name, values)
diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index bf22d10..2f973f2 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -23,6 +23,7 @@ from sqpdfo.sqpdfo_find_smallf import sqpdfo_find_smallf_
 from sqpdfo.bcdfo_include_in_Y import bcdfo_include_in_Y_
 from numpy import array, zeros, concatenate, zeros_like
 import sqpdfo.sqpdfo_global_variables as glob
+import sqpdfo.simhooks as simhooks
 
 
 def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=None,nit_=None,\
@@ -212,6 +213,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
     radius_has_been_rejected=copy(False)
     
     while 1:
+
+        if simhooks.enabled:
+            simhooks.emit('iteration', Y=Y, fY=fY, ceY=ceY, x=x, fx=fx, ce=info.ce,
+                          f=info.f, niter=info.niter, delta=delta, fcmodel=fcmodel,
+                          indfree=indfree, scale=scale, shift_Y=shift_Y)
         
         # Stop on counter.
 
-- 
2.43.0


From 448c1489649034a03cfed5c6e9bb096f00ec2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 22/39] fix: info.f was the value of a trial point after
 repaired, swapped or rejected steps

---
 sqpdfo/sqpdfo_main.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 2f973f2..c460fc6 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -1091,6 +1091,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
             if pred == - 1.0:
                 pos=0
                 rho=1
+                info.f=fx   # the trial point was not accepted
                 
             if (rho < eta1) or (pos == -1):
             
@@ -1469,8 +1470,10 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                 
                             info.flag=values.stop_on_small_trust_region
                             
-                            # final printout
+                            # final printout (of the current iterate, not
+                            # of the rejected trial point)
                             
+                            info.f=fx
                             sqpdfo_iter_printout_(info,delta,norms,pc,itype,\
                                       values,nb,mi,options,constrained_pbl,merit)
                                       
@@ -1479,10 +1482,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                             xstatus,sstatus,dstatus,M,ndummyY,sspace_save,\
                             xspace_save,msg,CNTsin,neval,lm,info
                             
-                # Recover ce at the current iterate
+                # Recover f at the current iterate (which has moved if the new
+                # point was swapped to position 1)
 
                 #info.ce=ce0
-                info.f=f0
+                info.f=fx
 
                 # Recompute Lagrange multiplier
 
-- 
2.43.0


From 8e5f74428a41578eb630b3bcec8db6c2481c3345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 23/39] fix: fixed variables were missing from the returned
 point after a failed start

---
 sqpdfo/sqpdfo_prelim.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 4baae3c..ef8cbf4 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -359,6 +359,13 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
                 dstatus,scaleX,scalefacX,info,options,values,nargout=9)
                 
             if info.flag:
+
+                #  including fixed variables at return
+
+                if (nfix > 0):
+                    I=eye_(n + nfix)
+                    x=I[:,indfix].dot(xfix[indfix]) + I[:,indfree].dot(x)
+
                 return n,nb,mi,me,x,lm,lb,ub,scalefacX,Delta0,nfix,indfix,xfix,\
                    vstatus,xstatus,sstatus,dstatus,QZ,RZ,scale,poised,Y_radius,\
                    poised_model,X,fX,Y,fY,ciX,ciY,ceX,ceY,poisedness_known,m,\
-- 
2.43.0


From 5da2445dd533299782844adf5addc6f1b40e5f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 24/39] fix: steps after a rejected one could be judged against
 the value at an earlier iterate

---
 sqpdfo/sqpdfo_main.py | 50 ++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index c460fc6..b9e1d1a 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -661,30 +661,32 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
         # Globalization
         #-----------------------------------------------------------------------
   
-        if not(radius_has_been_rejected):
-            f0      = info.f;           # memorize f at the current iterate, 
-                                        # useful in the sufficient decrease condition
-            if nbr_slacks:     
-                ce0 = copy(info.ce) - \
-                      concatenate((zeros((len(info.ce)-nbr_slacks,1)),sl**2))
-            else:
-                ce0 = info.ce;          # memorize ce at the current iterate in
-                                         # case of step rejection
-            ce0n    = norm_(ce0);
-            merit0  = f0 + sigma * ce0n;  # inital value of the merit function, 
-                                          # for the given sigma
-            prec_r  = options.tol_feas/10;  # initial precision for the restoration
-                                            # problem
-            prec_t  = options.tol_grad/10;  # initial precision for the tangent 
-                                            # problem
-
-            if options.verbose >= 5:
-                fprintf_(options.fout,'\nStep computation: merit = %12.5e\n'%(merit0))
-                
-            if options.verbose == 4:
-                fprintf_(options.fout,'   radius     |r|      |t|      |s|',\
-                '     sigma     rho\n')
-                
+        # (also after a rejected step: the iterate may have moved since, if the
+        # interpolation set was repaired or the new point swapped to position 1)
+
+        f0      = info.f;           # memorize f at the current iterate, 
+                                    # useful in the sufficient decrease condition
+        if nbr_slacks:     
+            ce0 = copy(info.ce) - \
+                  concatenate((zeros((len(info.ce)-nbr_slacks,1)),sl**2))
+        else:
+            ce0 = info.ce;          # memorize ce at the current iterate in
+                                     # case of step rejection
+        ce0n    = norm_(ce0);
+        merit0  = f0 + sigma * ce0n;  # inital value of the merit function, 
+                                      # for the given sigma
+        prec_r  = options.tol_feas/10;  # initial precision for the restoration
+                                        # problem
+        prec_t  = options.tol_grad/10;  # initial precision for the tangent 
+                                        # problem
+
+        if options.verbose >= 5:
+            fprintf_(options.fout,'\nStep computation: merit = %12.5e\n'%(merit0))
+            
+        if options.verbose == 4:
+            fprintf_(options.fout,'   radius     |r|      |t|      |s|',\
+            '     sigma     rho\n')
+            
         info.niter=info.niter + 1
 
         #-----------------------------------------------------------------------
-- 
2.43.0


From f444c32ec65a9e29031cb5ad62147cdca81d852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 25/39] fix: an objective that modifies its argument changed
 the point of the constraints

---
 sqpdfo/sqpdfo_func.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index 3868830..f83eedc 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -29,13 +29,13 @@ def sqpdfo_func_(x=None,*args,**kwargs):
     xc = copy(x.T)
     xc = list(xc[0])
     try:
-        f = ffunc(xc)
+        f = ffunc(list(xc))
     except:
         f = np.inf
         msgf = 1
     if cfunc != '':
         try:
-            c = cfunc(xc)
+            c = cfunc(list(xc))
             c = array(c).reshape(-1, 1)
         except:
             msgc = 1
-- 
2.43.0


From f9a67f0035ff9f1ac6c3d368f69d4ca55736d471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 26/39] fix: error while formatting output raised
 AttributeError

---
 sqpdfo/runtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/runtime.py b/sqpdfo/runtime.py
index f62b50f..75af770 100644
--- a/sqpdfo/runtime.py
+++ b/sqpdfo/runtime.py
@@ -363,8 +363,10 @@ def fprintf_(fid,*args, **kwargs):
     for arg in args:
         try:
             out = out + str(arg)
+        except MemoryError:
+            raise
         except Exception as e:
-            print("Display Error:", e.message())
+            print("Display Error:", e)
 
     if isinstance(fid,int):
         if  fid == 1:
-- 
2.43.0


From 5cb5640a1230b0a8843d9fbbe93b8609d2c01e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 27/39] fix: constraint values that cannot be converted raised
 TypeError instead of ending the run

---
 sqpdfo/sqpdfo_func.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index f83eedc..6d54ffd 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -35,8 +35,7 @@ def sqpdfo_func_(x=None,*args,**kwargs):
         msgf = 1
     if cfunc != '':
         try:
-            c = cfunc(list(xc))
-            c = array(c).reshape(-1, 1)
+            c = array(cfunc(list(xc))).reshape(-1, 1)
         except:
             msgc = 1
     if msgf > 0 or msgc > 0:
-- 
2.43.0


From 191fb582d84913b64b42a7eda448fa6786662184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 28/39] fix: verbose>=4 changed the outcome of the convergence
 test

---
 sqpdfo/sqpdfo_main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index b9e1d1a..f3ccc9c 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -486,11 +486,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                           ', Y_radius = ',str(Y_radius))
                     
             if (options.verbose >= 4):
-                poised,Y_radius=\
+                poised_out,_=\
                 bcdfo_poisedness_Y_(QZ,RZ,Y,eps_L,x,lSolver,whichmodel,\
                 hardcons,lb,ub,indfree,stratLam,scale,shift_Y,nargout=2)
                 
-                disp_(' poisedness(Y) = ',str(poised))
+                disp_(' poisedness(Y) = ',str(poised_out))
                 
             poised_model=1
 
-- 
2.43.0


From 4b393cdb92c48de0d5c3e46c38fd2b9b6a307cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 29/39] fix: measures reported with an exhausted budget were
 those of an earlier iterate

---
 sqpdfo/sqpdfo_main.py | 50 +++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index f3ccc9c..c547f6a 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -219,31 +219,6 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                           f=info.f, niter=info.niter, delta=delta, fcmodel=fcmodel,
                           indfree=indfree, scale=scale, shift_Y=shift_Y)
         
-        # Stop on counter.
-
-        if info.niter >= options.miter:
-            info.flag=values.stop_on_max_iter
-
-            # Final printout
-
-            sqpdfo_iter_printout_(info,old_delta,norms,pc,itype,values,nb,mi,\
-                                 options,constrained_pbl,merit)
-            return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
-            cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
-            ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
-            
-        if info.nsimul[1] >= options.msimul:
-        
-            info.flag=values.stop_on_max_simul
-
-            # Final printout
-
-            sqpdfo_iter_printout_(info,old_delta,norms,pc,itype,values,nb,mi,\
-                                 options,constrained_pbl,merit)
-            return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
-            cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
-            ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
-            
         #   if radius_has_been_rejected == false:
 
         xk=copy(x)
@@ -286,6 +261,31 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
             else:
                 fprintf_(options.fout,' |grad f| = %12.5e\n'%(info.glagn))
 
+        # Stop on counter.
+
+        if info.niter >= options.miter:
+            info.flag=values.stop_on_max_iter
+
+            # Final printout
+
+            sqpdfo_iter_printout_(info,old_delta,norms,pc,itype,values,nb,mi,\
+                                 options,constrained_pbl,merit)
+            return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
+            cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
+            ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
+            
+        if info.nsimul[1] >= options.msimul:
+        
+            info.flag=values.stop_on_max_simul
+
+            # Final printout
+
+            sqpdfo_iter_printout_(info,old_delta,norms,pc,itype,values,nb,mi,\
+                                 options,constrained_pbl,merit)
+            return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
+            cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
+            ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
+
         # Stop on convergence.
 
         if ((info.glagn <= options.tol_grad) and (info.feasn <= options.tol_feas) \
-- 
2.43.0


From de345fffff94255ffcbe6c26d8dbab2b9f259760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 30/39] fix: interrupts in the user's functions were taken for
 failed evaluations

---
 sqpdfo/sqpdfo_func.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index 6d54ffd..71e4b87 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -30,13 +30,13 @@ def sqpdfo_func_(x=None,*args,**kwargs):
     xc = list(xc[0])
     try:
         f = ffunc(list(xc))
-    except:
+    except Exception:
         f = np.inf
         msgf = 1
     if cfunc != '':
         try:
             c = array(cfunc(list(xc))).reshape(-1, 1)
-        except:
+        except Exception:
             msgc = 1
     if msgf > 0 or msgc > 0:
         msg = 'Error: error during calculating f (and/or c) in '
-- 
2.43.0


From 552197b4fdb0db9baf9acc84360e59a3081dc3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 31/39] Hook: pass derivatives and counters to the iteration
 probe

---
 sqpdfo/sqpdfo_main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index c547f6a..cf89d94 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -217,7 +217,8 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
         if simhooks.enabled:
             simhooks.emit('iteration', Y=Y, fY=fY, ceY=ceY, x=x, fx=fx, ce=info.ce,
                           f=info.f, niter=info.niter, delta=delta, fcmodel=fcmodel,
-                          indfree=indfree, scale=scale, shift_Y=shift_Y)
+                          indfree=indfree, scale=scale, shift_Y=shift_Y, g=info.g,
+                          ae=info.ae, M=M, lm=lm, sigma=sigma, nsimul=info.nsimul[1])
         
         #   if radius_has_been_rejected == false:
 
-- 
2.43.0


From 7a7aa93a9d979adb9b79696934bc7076bff9820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 32/39] fix: let variables leave their bounds however small the
 trust region is

The bound-constrained trust-region step fixed every variable lying at a bound
whose step stayed within 1e-5 of it, even when the step moved inside. With a
radius of 1e-5 or less no variable could leave its bound any more, and runs on
convex problems stopped far from the solution (exit code 15).
---
 sqpdfo/bcdfo_solve_TR_MS_bc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS_bc.py b/sqpdfo/bcdfo_solve_TR_MS_bc.py
index aefd151..bae560e 100644
--- a/sqpdfo/bcdfo_solve_TR_MS_bc.py
+++ b/sqpdfo/bcdfo_solve_TR_MS_bc.py
@@ -144,8 +144,8 @@ def bcdfo_solve_TR_MS_bc_(g=None,H=None,lb=None,ub=None,Delta=None,eps_D=None,st
             gplus[ind_free]=gplus[ind_free] + gplus_red
             s_after_reduced_ms=s + I[:,ind_free] .dot( s_deltaMS )
       #  Compute critical components which became active during the last MS iteration
-            ind_u_crit=find_(logical_and(ub[ind_free] - s_after_reduced_ms[ind_free] <= eps_bound, ub[ind_free] <= 1e-10))
-            ind_l_crit=find_(logical_and(s_after_reduced_ms[ind_free] - lb[ind_free] <= eps_bound, lb[ind_free] >= -1e-10))
+            ind_u_crit=find_(logical_and(s_after_reduced_ms[ind_free] >= 0, ub[ind_free] <= 1e-10))
+            ind_l_crit=find_(logical_and(s_after_reduced_ms[ind_free] <= 0, lb[ind_free] >= -1e-10))
       #  Fix these new active components
 
             if (length_(ind_u_crit) + length_(ind_l_crit) != 0):
-- 
2.43.0


From 940342c1da1fde76332e30d59d9c9dd3fe59c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 33/39] fix: a variable that does not move must not shorten the
 tangential step

Components of the tangential step with a modulus below 1e-15 got the
divisor 1e-15. With rounding noise in the position of a variable that
sits on its bound, this reduced the whole step to (nearly) zero and the
run stopped with a too small trust region far from the solution.
---
 sqpdfo/sqpdfo_solve_TR_bc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index 6f55bb2..37c2716 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -554,9 +554,13 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
             indices2 = find_(divisor > -1e-15)
             iii = [i in indices2 for i in indices1]
             indices = indices1[iii]
-            divisor[indices] = 1e-15
-            ratio=(alpha - aTx) / divisor
-            minratio=min_(ratio[divisor > 0])
+            divisor[indices] = 0
+            # a component that does not move limits nothing
+            moving = divisor > 0
+            if moving.any():
+                minratio=min_((alpha - aTx)[moving] / divisor[moving])
+            else:
+                minratio=0
             
             if (minratio < 0):
                 # in case xk is slightly in the infeasible region, this should not
-- 
2.43.0


From 49020af23ea1b862e8c5541a21c5b6f4b36c25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 34/39] fix: accept flat and row arrays as bounds

Bounds given as a numpy array with one dimension, as a row or (for one
variable) as a number ended in an IndexError or ValueError.
---
 sqpdfo/sqpdfo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 49c12c0..d94d052 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -124,12 +124,12 @@ def sqpdfo_run_(options_,func_f,x0,lb,ub,me,mi,func_c,li,ui):
         x0 = array(x0, dtype=float)
     if lb is None:
         lb = -1e20 * np.ones((x0.size, 1))
-    elif not isinstance(lb, np.ndarray):
-        lb = array([lb]).T
+    else:
+        lb = array(lb, dtype=float).reshape(-1, 1)
     if ub is None:
         ub = 1e20 * np.ones((x0.size, 1))
-    elif not isinstance(ub, np.ndarray):
-        ub = array([ub]).T
+    else:
+        ub = array(ub, dtype=float).reshape(-1, 1)
 
 	# check existence of options
 
-- 
2.43.0


From d58e6ed1579d6a27370beaa1fc2440749b8a66e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 35/39] fix: do not modify options given as a class

copy() of a class returns the class itself: the run stored its own
settings in it and a second run with the same options failed.
---
 sqpdfo/sqpdfo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index d94d052..5ec058a 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -139,6 +139,12 @@ def sqpdfo_run_(options_,func_f,x0,lb,ub,me,mi,func_c,li,ui):
             pass
     else:
         options = copy(options_)
+        if options is options_:
+            # a class is not copied by copy(): the run would modify it
+            options = dummyUnionStruct()
+            for name in dir(options_):
+                if not name.startswith('__'):
+                    setattr(options, name, getattr(options_, name))
 
     # Handling of inequalities as slack variables
 
-- 
2.43.0


From 07886d6f3b24f684f00dd5e5453b21a99a77c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 36/39] fix: settings defined in the class of the options were
 ignored

isfield_() looked at the object's own dictionary only, so an option
inherited from the class of the options object had no effect.
---
 sqpdfo/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/runtime.py b/sqpdfo/runtime.py
index 75af770..d03de9a 100644
--- a/sqpdfo/runtime.py
+++ b/sqpdfo/runtime.py
@@ -439,9 +439,9 @@ def setdiff_(a,b):
     
 def isfield_(obj, name):
     """
-    Returns true if 'name' is a key for obj
+    Returns true if 'name' is an attribute of obj (or of its class)
     """
-    return str(name) in obj.__dict__
+    return hasattr(obj, str(name))
     
 def any_(A):
     """
-- 
2.43.0


From befaac898f9fc4df4b85bd9d3580383b5a6b0483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 37/39] fix: multipliers at their bounds were not the
 least-squares ones

The normal equations A*A'*lm = -A*g were solved in the least-squares
sense within the bounds on the multipliers. Where a bound holds a
multiplier back this is another problem than min ||g+A'*lm||: the
gradient of the Lagrangian could even be larger than with zero
multipliers.
---
 sqpdfo/sqpdfo_compute_multiplier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqpdfo/sqpdfo_compute_multiplier.py b/sqpdfo/sqpdfo_compute_multiplier.py
index b80f1f2..ceb3fb8 100644
--- a/sqpdfo/sqpdfo_compute_multiplier.py
+++ b/sqpdfo/sqpdfo_compute_multiplier.py
@@ -163,6 +163,11 @@ def sqpdfo_compute_multiplier_(x=None,lb=None,ub=None,info_=None,\
             
     if not isempty_(ifree[ifree > 0]):
         sn, rn, op, exitc = blls_(AAn, - Agn, lon, upn, nargout=4)
+        if (sn <= lon).any() or (sn >= upn).any():
+            # the normal equations do not hold where a multiplier is at its
+            # bound: solve the least-squares problem itself
+            ATn = np.delete(A.T, find_(ifree <= 0), 1)
+            sn, rn, op, exitc = blls_(ATn, - glocal, lon, upn, nargout=4)
         I = eye_(length_(lo))
         lm = np.delete(I, find_(ifree <= 0), 1).dot(sn)
     else:
-- 
2.43.0


From 1138837055b83d838f2a64932fcf4b620b40763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:29 +0000
Subject: [PATCH 38/39] Hook: show trial steps to the probe

---
 sqpdfo/sqpdfo_main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index cf89d94..e34c41f 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -787,6 +787,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
 
         m=m + 1
 
+        if simhooks.enabled:
+            simhooks.emit('trial', x=x, xplus=xplus, norms=norms, delta=old_delta,
+                          lb=lb, ub=ub, indfree=indfree, g=info.g, M=M, ce=ce0,
+                          ae=info.ae, sigma=sigma, qcost=qcost, rpred=rpred)
+
         # Include point in X and evaluate f
         # (xstatus(m) is set to 0 but is updated later on)
         
-- 
2.43.0


From a3dfca368d36fd8879e11124f8c45c5d7979d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:43 +0000
Subject: [PATCH 39/39] fix: a step of the solver for bounds could leave the
 trust region

Near singular models (for example BFGS approximations after an outlier)
made bcdfo_solve_TR_MS_bc_ detect that the step had left the trust region
(error7) and return it all the same: the caller evaluated points hundreds
of trust-region radii away. Return the part inside.
---
 sqpdfo/bcdfo_solve_TR_MS_bc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqpdfo/bcdfo_solve_TR_MS_bc.py b/sqpdfo/bcdfo_solve_TR_MS_bc.py
index bae560e..05b8d7e 100644
--- a/sqpdfo/bcdfo_solve_TR_MS_bc.py
+++ b/sqpdfo/bcdfo_solve_TR_MS_bc.py
@@ -438,6 +438,10 @@ def bcdfo_solve_TR_MS_bc_(g=None,H=None,lb=None,ub=None,Delta=None,eps_D=None,st
             if verbose:
                 disp_('Error in bcdfo_solve_TR_MS_bc: delta smaller than zero !!!!!!')
             msg='error7'
+          #  keep the part of the step inside the trust region
+            s=s * (Delta0 / norms)
+            norms=norm_(s)
+            value=0.5 * s.T .dot( H .dot( s )) + s.T .dot( g0 )
             if (verbose > 1):
                 disp_('bcdfo_solve_TR_MS_bc: exit!')
             return s,_lambda,norms,value,gplus,nfact,neigd,msg
-- 
2.43.0

