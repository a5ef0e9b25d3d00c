From 305e5cf737642840c4b0d012cdf71946f4ff8f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 01/17] fix: store the KKT diagonal of all-zero inequality rows

formkktmatrix_full/_U inserted the -1 diagonal only while walking the entries
of a row of G, so an empty row lost its diagonal and updatekktmatrix then
overwrote an unrelated entry (or wrote before the array).
---
 src/Auxilary.c | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index cfdae2f..b90a016 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -41,13 +41,10 @@ void formkktmatrix_U(smat *P, smat *G, smat *Gt, smat *kkt)
 			kkt->ir[kkt_nnz] = Gt->ir[j];
 			kkt->pr[kkt_nnz] = Gt->pr[j];
 			kkt_nnz++;
-			if (j == Gt->jc[i + 1] - 1)
-			{
-				kkt->ir[kkt_nnz] = P->n + i;
-				kkt->pr[kkt_nnz] = -1.0;
-				kkt_nnz++;
-			}
 		}
+		kkt->ir[kkt_nnz] = P->n + i;
+		kkt->pr[kkt_nnz] = -1.0;
+		kkt_nnz++;
 		kkt->jc[i + 1 + P->n] = kkt_nnz;
 	}
 }
@@ -123,13 +120,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + A->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + A->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n + At->n] = kkt_nnz;
 		}
 	}
@@ -168,13 +162,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n] = kkt_nnz;
 		}
 	}
-- 
2.43.0


From 47b7ebef043a71f4eaefe17a930ebe16c65f063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 02/17] fix: size the natural-ordering fallback by the stored
 problem dimensions

When the equality inputs are incomplete the object is set up with p = 0,
but the fallback used after a failed AMD call wrote n+m+p entries with the
caller's p into a permutation of n+m entries.
---
 src/qpSWIFT.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 8831d13..3c92c65 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -209,7 +209,7 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < myQP->n + myQP->m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
@@ -431,7 +431,7 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < myQP->n + myQP->m + myQP->p; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
-- 
2.43.0


From 25fd673b8f179b5e2e42044f9054fab7ce86adcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 03/17] fix: decide Maximum-Iterations from the loop of the
 current solve

IterationCount accumulates over repeated solves of one object, so comparing
it with the limit left a stale flag of an earlier solve or turned a fresh
Optimal into Maximum-Iterations.
---
 src/qpSWIFT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 3c92c65..d8661e7 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -601,7 +601,7 @@ qp_int QP_SOLVE(QP *myQP)
 			}
 		}
 
-		if (myQP->stats->IterationCount == myQP->options->maxit)
+		if (idx >= myQP->options->maxit)
 		{
 			myQP->stats->Flag = QP_MAXIT;
 		}
-- 
2.43.0


From eb63bdc567a21321aadba829ccdc87f655b1de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 04/17] fix: report a zero equality residual when there are no
 equalities

n_ry was never written for p = 0, yet it is printed with verbose > 0.
---
 src/qpSWIFT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index d8661e7..654af76 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -81,6 +81,7 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->n_ry = 0.0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
@@ -282,6 +283,7 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 	myQP->stats->IterationCount = 0;
 	myQP->stats->alpha_p = 0.0;
 	myQP->stats->alpha_d = 0.0;
+	myQP->stats->n_ry = 0.0;
 	/* Initialise Stats */
 
 	/* Initalize Matrices */
-- 
2.43.0


From 0a671c461d4dbf8d83d402404e08aa4b519c0769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 05/17] fix: do not read the shape of zero-dimensional arrays
 in the Python interface

c, h or b given as a zero-dimensional array crashed the interpreter before
the dimension check could raise TypeError.
---
 python/pyqpSWIFT.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 2f75797..fb1656f 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -84,15 +84,16 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         return NULL;
     }
 
+    /* A zero-dimensional array has no dims[0]; it is rejected below */
     qp_int n, m, p;
     dims = PyArray_DIMS(c);
-    n = (qp_int)dims[0];
+    n = PyArray_NDIM(c) ? (qp_int)dims[0] : 0;
     dims = PyArray_DIMS(h);
-    m = (qp_int)dims[0];
+    m = PyArray_NDIM(h) ? (qp_int)dims[0] : 0;
     if (b && A)
     {
         dims = PyArray_DIMS(b);
-        p = (qp_int)dims[0];
+        p = PyArray_NDIM(b) ? (qp_int)dims[0] : 0;
     }
     else
     {
-- 
2.43.0


From 309d14fbdd3a6a14625bfb28017672627d38c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 06/17] fix: leave no exception pending when OUTPUT is invalid

An OUTPUT integer outside the range of long, or the warning being turned
into an error, made run() return a result with an exception set, which
Python reports as SystemError.
---
 python/pyqpSWIFT.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index fb1656f..cc6376d 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -281,7 +281,13 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
-                PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1);
+                /* An integer that does not fit leaves an OverflowError behind */
+                PyErr_Clear();
+                if (PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1) < 0)
+                {
+                    Py_DECREF(opts_output);
+                    return NULL;
+                }
                 // PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 // return NULL;
             }
-- 
2.43.0


From d49d3c0833a05dfdc386ac287e39f74f8299c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 07/17] fix: release the option value when the Python interface
 rejects it

---
 python/pyqpSWIFT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index cc6376d..b9fd8c9 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -195,6 +195,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
+                Py_DECREF(opts_maxiter);
                 PyErr_SetString(PyExc_TypeError, "max iterations must be between 0 and 200, using the default value of 100");
                 return NULL;
             }
@@ -212,6 +213,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
+                Py_DECREF(opts_abstol);
                 PyErr_SetString(PyExc_TypeError, "absolute tolerance must be between 0 and 1, using the default value");
                 return NULL;
             }
@@ -229,6 +231,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
+                Py_DECREF(opts_reltol);
                 PyErr_SetString(PyExc_TypeError, "realtive tolerance must be between 0 and 1, using the default value");
                 return NULL;
             }
@@ -246,6 +249,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
+                Py_DECREF(opts_sigma);
                 PyErr_SetString(PyExc_TypeError, "sigma must be positive, using the default value");
                 return NULL;
             }
@@ -264,6 +268,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 //  PyErr_WarnEx(PyExc_UserWarning, "verbose must be non-negative, using the default value", 1);
+                Py_DECREF(opts_verbose);
                 PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 return NULL;
             }
-- 
2.43.0


From 7e201ca0c12432b0cb8a8b9fd4b97bf88dc88ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 08/17] fix: stop at a root of the elimination tree before
 reading the update pattern

---
 src/Auxilary.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index b90a016..cd865a3 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -1102,7 +1102,7 @@ void test_reach(qp_int *Parent, qp_int *Pinv, qp_int *UPattern, qp_int n, qp_int
 	{
 		i = Pinv[j];
 
-		for (; UPattern[i] != top && i != -1; i = Parent[i])
+		for (; i != -1 && UPattern[i] != top; i = Parent[i])
 		{
 			UPattern[i] = top;
 		}
-- 
2.43.0


From 40f9c67f970d8ab68fe6314b07bcc932bb5815d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 09/17] fix: check the column end before reading the row index
 in LDL_cache_numeric

---
 src/ldl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldl.c b/src/ldl.c
index a32d714..beeb81e 100644
--- a/src/ldl.c
+++ b/src/ldl.c
@@ -406,7 +406,7 @@ qp_int UPattern[] /*Update Pattern of subsequent iterations*/
 		else{
 			/*for (jj = Ltp[k]; jj < Ltp[k + 1]; jj++)
 				++work[Lti[jj]];*/
-			for (jj = Lp[k]; UPattern[Li[jj]] != n && jj < Lp[k + 1]; jj++, work[k]++);
+			for (jj = Lp[k]; jj < Lp[k + 1] && UPattern[Li[jj]] != n; jj++, work[k]++);
 		}
 
 	}
-- 
2.43.0


From 2250b738d99e41d573a15dc2aa1ebdf8543ff61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 10/17] fix: do not read the first element of an empty vector
 in findminmax

---
 src/Auxilary.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index cd865a3..fb9d890 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -953,8 +953,9 @@ void SparseMatrixTranspose(smat *A, smat *At)
 void findminmax(qp_real *z, long n, qp_real *min, qp_real *max)
 {
 
-	min[0] = z[0];
-	max[0] = z[0];
+	/* An empty vector has no first element to read */
+	min[0] = (n > 0) ? z[0] : 0.0;
+	max[0] = (n > 0) ? z[0] : 0.0;
 	qp_int i;
 	for (i = 1; i < n; i++)
 	{
-- 
2.43.0


From b3dd1d3cb8e9ca31a7ac3d4f6d84c66400ecacc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 11/17] fix: read MATLAB options of any numeric class and
 reject empty ones

---
 matlab/qpSWIFT_mex.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index eeebc68..26c1b4c 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -99,6 +99,15 @@ char helpstr[] = {
 "      -> s          : Primal Slack Variables \n"
 };
 
+/* Value of an option; it has to be a real number and must not be empty */
+static double optionvalue(const mxArray *field, const char *message)
+{
+    if ((!mxIsNumeric(field) && !mxIsLogical(field)) || mxIsComplex(field) || mxIsEmpty(field))
+        mexErrMsgTxt(message);
+
+    return mxGetScalar(field);
+}
+
 void mexFunction(int nlhs, mxArray *plhs[],
                  int nrhs, const mxArray *prhs[])
 {
@@ -441,43 +450,49 @@ void mexFunction(int nlhs, mxArray *plhs[],
     if (sttgs_maxiter)
     {
 
-        if (*mxGetPr(sttgs_maxiter) < 0 || *mxGetPr(sttgs_maxiter) > 200)
+        double value = optionvalue(sttgs_maxiter, "Iteration Number must be within 0 and 200");
+        if (value < 0 || value > 200)
             mexErrMsgTxt("Iteration Number must be within 0 and 200");
 
-        myQP->options->maxit = (qp_int)(*mxGetPr(sttgs_maxiter));
+        myQP->options->maxit = (qp_int)value;
     }
 
     if (sttgs_abstol)
     {
 
-        if (*mxGetPr(sttgs_abstol) < 0 || *mxGetPr(sttgs_abstol) > 1)
+        double value = optionvalue(sttgs_abstol, "Absolute Tolerance must be within 0 and 1");
+        if (value < 0 || value > 1)
             mexErrMsgTxt("Absolute Tolerance must be within 0 and 1");
 
-        myQP->options->abstol = (qp_real)(*mxGetPr(sttgs_abstol));
+        myQP->options->abstol = (qp_real)value;
     }
     if (sttgs_reltol)
     {
 
-        if (*mxGetPr(sttgs_reltol) < 0 || *mxGetPr(sttgs_reltol) > 1)
+        double value = optionvalue(sttgs_reltol, "Relative Tolerance must be within 0 and 1");
+        if (value < 0 || value > 1)
             mexErrMsgTxt("Relative Tolerance must be within 0 and 1");
 
-        myQP->options->reltol = (qp_real)(*mxGetPr(sttgs_reltol));
+        myQP->options->reltol = (qp_real)value;
     }
 
     if (sttgs_sigma)
     {
-        myQP->options->sigma = (qp_real)(*mxGetPr(sttgs_sigma));
-        if (*mxGetPr(sttgs_sigma) < 0)
+        double value = optionvalue(sttgs_sigma, "Sigma must be positive");
+        if (value < 0)
             mexErrMsgTxt("Sigma must be positive");
+
+        myQP->options->sigma = (qp_real)value;
     }
 
     if (sttgs_verbose)
     {
 
-        if (*mxGetPr(sttgs_verbose) < 0)
+        double value = optionvalue(sttgs_verbose, "Verbose must be positive");
+        if (value < 0)
             mexErrMsgTxt("Verbose must be positive");
 
-        myQP->options->verbose = (qp_real)(*mxGetPr(sttgs_verbose));
+        myQP->options->verbose = (qp_int)value;
     }
 
     if (myQP->options->verbose > 0)
-- 
2.43.0


From 0f00428b892c4f37c4f4c3e7c9f49325bf1fedae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 12/17] fix: reject NaN options in the MATLAB interface

---
 matlab/qpSWIFT_mex.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index 26c1b4c..650fd5e 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -451,7 +451,7 @@ void mexFunction(int nlhs, mxArray *plhs[],
     {
 
         double value = optionvalue(sttgs_maxiter, "Iteration Number must be within 0 and 200");
-        if (value < 0 || value > 200)
+        if (!(value >= 0 && value <= 200))
             mexErrMsgTxt("Iteration Number must be within 0 and 200");
 
         myQP->options->maxit = (qp_int)value;
@@ -461,7 +461,7 @@ void mexFunction(int nlhs, mxArray *plhs[],
     {
 
         double value = optionvalue(sttgs_abstol, "Absolute Tolerance must be within 0 and 1");
-        if (value < 0 || value > 1)
+        if (!(value >= 0 && value <= 1))
             mexErrMsgTxt("Absolute Tolerance must be within 0 and 1");
 
         myQP->options->abstol = (qp_real)value;
@@ -470,7 +470,7 @@ void mexFunction(int nlhs, mxArray *plhs[],
     {
 
         double value = optionvalue(sttgs_reltol, "Relative Tolerance must be within 0 and 1");
-        if (value < 0 || value > 1)
+        if (!(value >= 0 && value <= 1))
             mexErrMsgTxt("Relative Tolerance must be within 0 and 1");
 
         myQP->options->reltol = (qp_real)value;
@@ -479,7 +479,7 @@ void mexFunction(int nlhs, mxArray *plhs[],
     if (sttgs_sigma)
     {
         double value = optionvalue(sttgs_sigma, "Sigma must be positive");
-        if (value < 0)
+        if (!(value >= 0))
             mexErrMsgTxt("Sigma must be positive");
 
         myQP->options->sigma = (qp_real)value;
@@ -489,7 +489,7 @@ void mexFunction(int nlhs, mxArray *plhs[],
     {
 
         double value = optionvalue(sttgs_verbose, "Verbose must be positive");
-        if (value < 0)
+        if (!(value >= 0))
             mexErrMsgTxt("Verbose must be positive");
 
         myQP->options->verbose = (qp_int)value;
-- 
2.43.0


From 6fabe4f01b98847bef07773cda271615cbf90280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 13/17] fix: honour the documented spelling Permut in the
 MATLAB interface

---
 matlab/qpSWIFT_mex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index 650fd5e..5dd45d1 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -356,6 +356,10 @@ void mexFunction(int nlhs, mxArray *plhs[],
     {
         sttgs_permut = sttgs ? mxGetField(sttgs, 0, "permut") : 0;
     }
+    if (!sttgs_permut)
+    {
+        sttgs_permut = sttgs ? mxGetField(sttgs, 0, "Permut") : 0;
+    }
 
     if (sttgs_permut)
     {
-- 
2.43.0


From 27db6e69d42c4c842aeeb58ea1f792aeaa6196e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 14/17] fix: reject vectors with more than two dimensions in
 the MATLAB interface

---
 matlab/qpSWIFT_mex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index 5dd45d1..77038d8 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -303,13 +303,13 @@ void mexFunction(int nlhs, mxArray *plhs[],
     if (!mxIsDouble(c) || mxIsSparse(c) || mxIsComplex(c))
         mexErrMsgTxt("c should be a real dense vector");
 
-    if (MIN(size_c[0], size_c[1]) != 1)
+    if (mxGetNumberOfDimensions(c) != 2 || MIN(size_c[0], size_c[1]) != 1)
         mexErrMsgTxt("c should be a column vector");
 
     if (!mxIsDouble(h) || mxIsSparse(h) || mxIsComplex(h))
         mexErrMsgTxt("h should be a real dense vector");
 
-    if (MIN(size_h[0], size_h[1]) != 1)
+    if (mxGetNumberOfDimensions(h) != 2 || MIN(size_h[0], size_h[1]) != 1)
         mexErrMsgTxt("h should be a column vector");
 
     if (A)
@@ -317,7 +317,7 @@ void mexFunction(int nlhs, mxArray *plhs[],
         if (!mxIsDouble(b) || mxIsSparse(b) || mxIsComplex(b))
             mexErrMsgTxt("b should be a real dense vector");
 
-        if (MIN(size_b[1], size_b[0]) != 1)
+        if (mxGetNumberOfDimensions(b) != 2 || MIN(size_b[1], size_b[0]) != 1)
             mexErrMsgTxt("b should be a column vector");
     }
 
@@ -368,7 +368,7 @@ void mexFunction(int nlhs, mxArray *plhs[],
         if (!mxIsDouble(sttgs_permut) || mxIsSparse(sttgs_permut) || mxIsComplex(sttgs_permut))
             mexErrMsgTxt("Permut should be a real dense vector");
 
-        if (MIN(size_Permut[1], size_Permut[0]) != 1)
+        if (mxGetNumberOfDimensions(sttgs_permut) != 2 || MIN(size_Permut[1], size_Permut[0]) != 1)
             mexErrMsgTxt("Permut should be a column vector");
 
         if (MAX(size_Permut[1], size_Permut[0]) != n + m + p)
-- 
2.43.0


From c875e6b961e16e570efac8e3667d41e1de91ca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 15/17] fix: request contiguous inputs in the Simulink blocks

---
 simulink/qpSWIFT_sfunc.c   | 19 +++++++++++++------
 simulink/qpSWIFT_sfunc_e.c | 25 +++++++++++++++++--------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/simulink/qpSWIFT_sfunc.c b/simulink/qpSWIFT_sfunc.c
index 9fbb4a5..eac139d 100644
--- a/simulink/qpSWIFT_sfunc.c
+++ b/simulink/qpSWIFT_sfunc.c
@@ -61,6 +61,13 @@ static void mdlInitializeSizes(SimStruct *S) /* Init sizes array */
     ssSetInputPortDirectFeedThrough(S, 2, 1);
     ssSetInputPortDirectFeedThrough(S, 3, 1);
 
+    /* The solver reads every input as one contiguous array */
+
+    ssSetInputPortRequiredContiguous(S, 0, 1);
+    ssSetInputPortRequiredContiguous(S, 1, 1);
+    ssSetInputPortRequiredContiguous(S, 2, 1);
+    ssSetInputPortRequiredContiguous(S, 3, 1);
+
     /* One sample time */
 
     ssSetNumSampleTimes(S, 1);
@@ -111,12 +118,12 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     out_tsetup = ssGetOutputPortRealSignal(S, 3);   /* tsetup */
     out_tsolve = ssGetOutputPortRealSignal(S, 4);   /* tsolve */
 
-    InputRealPtrsType in_P, in_c, in_G, in_h, in_sigma_d;
+    const real_T *in_P, *in_c, *in_G, *in_h;
 
-    in_P = ssGetInputPortRealSignalPtrs(S, 0);
-    in_c = ssGetInputPortRealSignalPtrs(S, 1);
-    in_G = ssGetInputPortRealSignalPtrs(S, 2);
-    in_h = ssGetInputPortRealSignalPtrs(S, 3);
+    in_P = ssGetInputPortRealSignal(S, 0);
+    in_c = ssGetInputPortRealSignal(S, 1);
+    in_G = ssGetInputPortRealSignal(S, 2);
+    in_h = ssGetInputPortRealSignal(S, 3);
 
  
     size_P = ssGetInputPortWidth(S, 0); // P
@@ -137,7 +144,7 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     
     
     
-    myQP = QP_SETUP_dense(n, m, 0, *in_P , NULL, *in_G, *in_c, *in_h, NULL, NULL, COLUMN_MAJOR_ORDERING);
+    myQP = QP_SETUP_dense(n, m, 0, (qp_real *)in_P , NULL, (qp_real *)in_G, (qp_real *)in_c, (qp_real *)in_h, NULL, NULL, COLUMN_MAJOR_ORDERING);
       
     /* ---------------------- Change the following settings as desired ---------------------- */
     /* -------------------------------------------------------------------------------------- */
diff --git a/simulink/qpSWIFT_sfunc_e.c b/simulink/qpSWIFT_sfunc_e.c
index 9b301c8..9ceb021 100644
--- a/simulink/qpSWIFT_sfunc_e.c
+++ b/simulink/qpSWIFT_sfunc_e.c
@@ -64,6 +64,15 @@ static void mdlInitializeSizes(SimStruct *S) /* Init sizes array */
     ssSetInputPortDirectFeedThrough(S, 4, 1);
     ssSetInputPortDirectFeedThrough(S, 5, 1);
 
+    /* The solver reads every input as one contiguous array */
+
+    ssSetInputPortRequiredContiguous(S, 0, 1);
+    ssSetInputPortRequiredContiguous(S, 1, 1);
+    ssSetInputPortRequiredContiguous(S, 2, 1);
+    ssSetInputPortRequiredContiguous(S, 3, 1);
+    ssSetInputPortRequiredContiguous(S, 4, 1);
+    ssSetInputPortRequiredContiguous(S, 5, 1);
+
     /* One sample time */
 
     ssSetNumSampleTimes(S, 1);
@@ -115,14 +124,14 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     out_tsetup = ssGetOutputPortRealSignal(S, 3);   /* tsetup */
     out_tsolve = ssGetOutputPortRealSignal(S, 4);   /* tsolve */
 
-    InputRealPtrsType in_P, in_c, in_A, in_b, in_G, in_h;
+    const real_T *in_P, *in_c, *in_A, *in_b, *in_G, *in_h;
 
-    in_P = ssGetInputPortRealSignalPtrs(S, 0);
-    in_c = ssGetInputPortRealSignalPtrs(S, 1);
-    in_A = ssGetInputPortRealSignalPtrs(S, 2);
-    in_b = ssGetInputPortRealSignalPtrs(S, 3);
-    in_G = ssGetInputPortRealSignalPtrs(S, 4);
-    in_h = ssGetInputPortRealSignalPtrs(S, 5);
+    in_P = ssGetInputPortRealSignal(S, 0);
+    in_c = ssGetInputPortRealSignal(S, 1);
+    in_A = ssGetInputPortRealSignal(S, 2);
+    in_b = ssGetInputPortRealSignal(S, 3);
+    in_G = ssGetInputPortRealSignal(S, 4);
+    in_h = ssGetInputPortRealSignal(S, 5);
 
    
     size_P = ssGetInputPortWidth(S, 0); // P
@@ -137,7 +146,7 @@ static void mdlOutputs(SimStruct *S, int_T tid)
     m = (qp_int)size_h;
 
 
-    myQP = QP_SETUP_dense(n, m, p, *in_P , *in_A, *in_G, *in_c, *in_h, *in_b, NULL, COLUMN_MAJOR_ORDERING);
+    myQP = QP_SETUP_dense(n, m, p, (qp_real *)in_P , (qp_real *)in_A, (qp_real *)in_G, (qp_real *)in_c, (qp_real *)in_h, (qp_real *)in_b, NULL, COLUMN_MAJOR_ORDERING);
     
     /* ---------------------- Change the following settings as desired ---------------------- */
     /* -------------------------------------------------------------------------------------- */
-- 
2.43.0


From 00dc90e141fb989b939a3fa465b3a3a6f90a09ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 16/17] fix: initial slacks and multipliers stay positive when
 the shift by one is absorbed

With a constraint residual above 2^53 (for example h = 1e20 for no bound) -t + (1 + max t)
rounds to zero, so that an initial multiplier or slack was exactly zero and the
iteration ended in NaN. Shift in two steps.
---
 src/Auxilary.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index fb9d890..70dccf6 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -1052,7 +1052,7 @@ qp_int kkt_initialize(QP *myQP)
 		{
 			for (i = 0; i < m; i++)
 			{
-				myQP->s[i] = z_inter[i] + (1 + alpha_p);
+				myQP->s[i] = (z_inter[i] + alpha_p) + 1;
 			}
 				
 		}
@@ -1069,7 +1069,7 @@ qp_int kkt_initialize(QP *myQP)
 		{
 			for (i = 0; i < m; i++)
 			{
-				myQP->z[i] = -z_inter[i] + (1 + alpha_d);
+				myQP->z[i] = (alpha_d - z_inter[i]) + 1;
 			}
 				
 		}
-- 
2.43.0


From 59aef0658413548c089343ea5537f5349cce0691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 17/17] fix: factorisation time is that of the current solve

kkt_time is reset by every solve, ldl_numeric only by setup, so that from the
second solve of an object on the factorisation took longer than the KKT solves
that contain it.
---
 src/qpSWIFT.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 654af76..2e7eb22 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -478,6 +478,7 @@ qp_int QP_SOLVE(QP *myQP)
 	tic(&tsolve);
 	qp_timer kkt_t;
 	qp_real kkt_time = 0;
+	myQP->stats->ldl_numeric = 0.0;
 	qp_int idx;
 
 	qp_int Flag_kkt;
-- 
2.43.0

