From af849de191f74fe50e617c3d18b6fbb878ef2338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 01/52] fix: do not read beyond the data when more delays are
 requested than there are frames

---
 cddm/_core_nb.py | 54 +++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index 4cac182..549e6cf 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -338,7 +338,7 @@ def _cross_corr_complex_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -346,7 +346,7 @@ def _cross_corr_regular(x,y,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:],C[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_corr_complex_regular(x,y,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],y[i:], out[i:i+1])
         if i > 0:
@@ -355,13 +355,13 @@ def _cross_corr_complex_regular(x,y,dummy,out):
 
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_add(x[i:],x[0:n], out[i:i+1])
 
 @nb.guvectorize([(C[:],C[:],C[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_complex_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_corr_complex_add(x[0:n],x[i:], out[i:i+1])
 
@@ -452,7 +452,7 @@ def _cross_diff_add(xv,yv, out):
 
 @nb.guvectorize([(C[:],C[:],F[:],F[:])],"(n),(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_diff_regular(x,y,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(y[i:],x[0:n], out[i:i+1])
         if i > 0:
@@ -469,7 +469,7 @@ def _auto_diff_vec(f,t,dummy,out):
             
 @nb.guvectorize([(C[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_diff_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         _cross_diff_add(x[i:],x[0:n], out[i:i+1])
             
@@ -518,7 +518,7 @@ def _cross_sum_complex(f,t1,t2,dummy,out):
                                 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_regular(x,dummy,out):
-    for i in range(out.shape[0]):
+    for i in range(min(out.shape[0], x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -533,7 +533,7 @@ def _cross_sum_regular(x,dummy,out):
             
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular_inverted(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -551,7 +551,7 @@ def _cross_sum_complex_regular_inverted(x,dummy,out):
 
 @nb.guvectorize([(C[:],C[:],C[:]), (F[:],F[:],F[:])],"(n),(k)->(k)", target = NUMBA_TARGET, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_regular(x,dummy,out):
-    for i in range((out.shape[0]+1)//2):
+    for i in range(min((out.shape[0]+1)//2, x.shape[0])):
         n = x.shape[0] - i
         if i == 0:
             tmp = out[0]
@@ -574,6 +574,8 @@ def _cross_corr_fft_regular(x, y, dummy, out):
     if np.iscomplexobj(out):
         out_length = (out_length+1)//2
     length = len(x)
+    #there is no data for delays longer than the data length
+    out_length = min(out_length, length)
     tmp1 = np.empty((length*2), x.dtype)
     tmp1[0:length] = x
     tmp1[length:] = 0.
@@ -590,13 +592,15 @@ def _cross_corr_fft_regular(x, y, dummy, out):
         out[:out_length] += _out[:out_length]
         out[-1:-out_length:-1] += _out[-1:-out_length:-1]        
     else:
-        out[:] += _out[:out_length].real
-        out[1:] += _out[-1:-out_length:-1].real
+        out[:out_length] += _out[:out_length].real
+        out[1:out_length] += _out[-1:-out_length:-1].real
     
 @nb.guvectorize([(C[:],F[:],F[:]),(C[:],C[:],C[:])],"(n),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_fft_regular(x, dummy, out):
     out_length = len(dummy)
     length = len(x)
+    #there is no data for delays longer than the data length
+    out_length = min(out_length, length)
     tmp = np.empty((length*2), x.dtype)
     tmp[0:length] = x
     tmp[length:] = 0.
@@ -607,9 +611,9 @@ def _auto_corr_fft_regular(x, dummy, out):
     _out = _ifft(x, overwrite_x = True)
     
     if np.iscomplexobj(out):
-        out[:] += _out[:out_length]
+        out[:out_length] += _out[:out_length]
     else:
-        out[:] += _out[:out_length].real
+        out[:out_length] += _out[:out_length].real
     
 
 @nb.jit([(C[:],I64[:],C[:]),(F[:],I64[:],C[:])], nopython = True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
@@ -632,6 +636,8 @@ def _cross_corr_fft(x, y, t1,t2,length, dummy, out):
     if np.iscomplexobj(out):
         out_length = (out_length+1)//2
     
+    #there is no data for delays longer than the data length
+    out_length = min(out_length, int(length[0]))
     tmp1 = np.zeros((length*2), x.dtype)
     _fill_data(x,t1, tmp1)
     #tmp1[list(t1)] = x
@@ -647,13 +653,15 @@ def _cross_corr_fft(x, y, t1,t2,length, dummy, out):
         out[:out_length] += _out[:out_length]
         out[-1:-out_length:-1] += _out[-1:-out_length:-1]       
     else:
-        out[:] += _out[:out_length].real
-        out[1:] += _out[-1:-out_length:-1].real
+        out[:out_length] += _out[:out_length].real
+        out[1:out_length] += _out[-1:-out_length:-1].real
         
 @nb.guvectorize([(C[:],I64[:],I64[:],F[:],F[:]),(C[:],I64[:],I64[:],C[:],C[:])],"(n),(n),(),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _auto_corr_fft(x, t,length, dummy, out):
     out_length = len(dummy)
     
+    #there is no data for delays longer than the data length
+    out_length = min(out_length, int(length[0]))
     tmp = np.zeros((length*2), x.dtype)
     _fill_data(x,t, tmp)
     #tmp[list(t)] = x
@@ -662,30 +670,34 @@ def _auto_corr_fft(x, t,length, dummy, out):
     np.multiply(x,y, out = x)
     _out = _ifft(x, overwrite_x = True)
     if np.iscomplexobj(out):
-        out[:] += _out[:out_length]
+        out[:out_length] += _out[:out_length]
     else:
-        out[:] += _out[:out_length].real
+        out[:out_length] += _out[:out_length].real
     
 @nb.guvectorize([(C[:],C[:],I64[:],I64[:],F[:],F[:]), (C[:],C[:],I64[:],I64[:],C[:],C[:])],"(n),(m),(n),(),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_fft(x, y,t,length, dummy, out):
     out_length = len(dummy)
+    #there is no data for delays longer than the data length
+    out_length = min(out_length, int(length[0]))
     tmp1 = np.zeros((length*2), x.dtype)
     _fill_data(x,t, tmp1)
     x = _fft(tmp1, overwrite_x = True)
     np.multiply(np.conj(x),y, out = x)
     _out = _ifft(x, overwrite_x = True)
     if np.iscomplexobj(out):
-        out[:] += np.conj(_out[:out_length])
-        out[1:] += np.conj(_out[-1:-out_length:-1])
+        out[:out_length] += np.conj(_out[:out_length])
+        out[1:out_length] += np.conj(_out[-1:-out_length:-1])
     else:
-        out[:] += _out[:out_length].real
-        out[1:] += _out[-1:-out_length:-1].real
+        out[:out_length] += _out[:out_length].real
+        out[1:out_length] += _out[-1:-out_length:-1].real
         
     
 @nb.guvectorize([(C[:],C[:],I64[:],I64[:],F[:],F[:]),(C[:],C[:],I64[:],I64[:],C[:],C[:])],"(n),(m),(n),(),(k)->(k)", forceobj=True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
 def _cross_sum_complex_fft(x, y,t,length, dummy, out):
     out_length = len(dummy)
     out_length = (out_length+1)//2
+    #there is no data for delays longer than the data length
+    out_length = min(out_length, int(length[0]))
     tmp1 = np.zeros((length*2), x.dtype)
     _fill_data(x,t, tmp1)
     x = _fft(tmp1, overwrite_x = True)
-- 
2.43.0


From 171e13c12401dd73a796ef2884ea4c7ed4734847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 02/52] fix: reshape_output for one dimensional frames,
 multilevel data and masks

---
 cddm/core.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index b31a43d..1b006e5 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -359,12 +359,30 @@ def reshape_output(data, shape = None, mask = None):
         input data of :func:`acorr` or :func:`ccorr` functions.
 
     """
+    if mask is not None:
+        #masked data is always flattened
+        shape = (int(np.count_nonzero(mask)),)
+    elif shape is None:
+        raise ValueError("Either `mask` or `shape` must be defined")
+    shape = tuple(shape)
+    
+    if isinstance(data, np.ndarray):
+        #normalized data, leading dimensions are those preceding the frame dimensions
+        size = reduce((lambda x,y: x * y), shape, 1)
+        i = 0
+        while i < data.ndim - 1 and reduce((lambda x,y: x * y), data.shape[i:-1], 1) != size:
+            i += 1
+        leading_shape = data.shape[0:i]
+    else:
+        #raw tuple data, count data has same leading dimensions (levels).
+        leading_shape = data[1].shape[0:-1]
+        
     def _reshape(i,x):
         #if not count data
         if i != 1 and x is not None: 
-            x = x.reshape(shape)
+            x = x.reshape(leading_shape + shape + (x.shape[-1],))
             if mask is not None:
-                out = np.empty(x.shape[0:-mask.ndim] + mask.shape + (x.shape[-1],), x.dtype)
+                out = np.empty(leading_shape + mask.shape + (x.shape[-1],), x.dtype)
                 out[...,mask,:] = x
                 out[...,np.logical_not(mask),:] = np.nan
                 return out
@@ -372,14 +390,7 @@ def reshape_output(data, shape = None, mask = None):
                 return x
         else:
             return x
-    if shape is None:
-        if mask is None:
-            raise ValueError("Either `mask` or `shape` must be defined")
-        shape = mask.shape
-    if mask is None:
-        shape = data[0].shape[0:-(len(shape)+1)] + tuple(shape) + (data[0].shape[-1],) 
-    else:
-        shape = data[0].shape[0:-mask.ndim] + tuple(shape) + (data[0].shape[-1],) 
+
     #normalized data 
     if isinstance(data, np.ndarray):
         return _reshape(0,data) 
-- 
2.43.0


From c835be8a9d24332494ade8102f4b7937dd7dca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 03/52] fix: size of the slow data of in-memory multitau in
 complex mode

---
 cddm/multitau.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index ccdb347..77c26d5 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -232,16 +232,16 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     if axis == -1:
         new_axis = -1
         slow_shape = (nlevel,) + k_shape + (n_slow,)
-        slow_shape = (nlevel,) + k_shape + (n_slow*2+1,) if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape + (n_slow*2-1,) if complex and cross else slow_shape
     else:
         new_axis = axis
         slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow,) + k_shape[-1:] 
-        slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow*2+1,) + k_shape[-1:] if complex else slow_shape
+        slow_shape = (nlevel,) + k_shape[0:-1] + (n_slow*2-1,) + k_shape[-1:] if complex and cross else slow_shape
 
     out_slow = np.zeros(slow_shape, CDTYPE) if complex else np.zeros(slow_shape, FDTYPE) 
     out_slow = _transpose_data(out_slow, new_axis) 
         
-    count_slow = np.zeros((nlevel, n_slow,),IDTYPE)
+    count_slow = np.zeros((nlevel, n_slow*2-1,),IDTYPE) if complex and cross else np.zeros((nlevel, n_slow,),IDTYPE)
     m1, m2, sq = None, None, None
  
     if (norm & NORM_STRUCTURED) and correlate == True:
-- 
2.43.0


From 39527c5267df3912c846553d77a35fc1b8514ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 04/52] fix: neighbouring chunks in iterative complex
 auto-correlation

---
 cddm/multitau.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 77c26d5..f99eb49 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -930,7 +930,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                     #     m1_fast += out[3] /2
                     #     m1_fast += out[4] /2          
                         
-                    out = ccorr(_sliced_data(fdata1,0,fstart1,fstop1),_sliced_data(fdata1,0,fstart2,fstop2),t1[istart1:istop1],t1[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                    #earlier chunk goes first, so that delays are positive (matters for complex data)
+                    out = ccorr(_sliced_data(fdata1,0,fstart2,fstop2),_sliced_data(fdata1,0,fstart1,fstop1),t1[istart2:istop2],t1[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
                         
                     out_fast += out[0][...,0:n_fast]
                     count_fast += out[1][...,0:n_fast]
@@ -1004,7 +1005,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
                             #     m1_slow[j-1] += out[3] /2
                             #     m1_slow[j-1] += out[4] /2
                             
-                            out = ccorr(_sliced_data(fdata1,j,fstart1,fstop1),_sliced_data(fdata1,j,fstart2,fstop2),t_slow[istart1:istop1],t_slow[istart2:istop2],f1s = f1s, f2s = f2s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
+                            #earlier chunk goes first, so that delays are positive (matters for complex data)
+                            out = ccorr(_sliced_data(fdata1,j,fstart2,fstop2),_sliced_data(fdata1,j,fstart1,fstop1),t_slow[istart2:istop2],t_slow[istart1:istop1],f1s = f2s, f2s = f1s,  axis = axis, n = n_fast,norm = norm, method = method, complex = complex)
 
 
                             out_slow[j-1] += out[0][...,0:n_slow]
-- 
2.43.0


From 64109f93d92e2ce4aa88c02b1e7fa9f25fccdd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 05/52] fix: iterative multitau with nlevel exceeding the
 number of filled chunks

---
 cddm/multitau.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index f99eb49..1570894 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -755,10 +755,11 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     if nlevel is None:
         nlevel = n_decades_max -1
     else:
-        n_decades = min(nlevel + 1, n_decades_max)
-        if n_decades < 1:
-            raise ValueError("Invalid nlevel")
         nlevel = min(int(nlevel),n_decades_max -1)
+        if nlevel < 0:
+            raise ValueError("Invalid nlevel")
+        #decades that do not fill a chunk are processed after all data is read.
+        n_decades = min(nlevel + 1, n_decades)
               
     t_slow = np.arange(nframes)
           
-- 
2.43.0


From c26ea21c7efd3d3a349c3c207a6bb3d9a1085f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 06/52] fix: BINNING_FIRST of iterative multitau selects the
 same frames as the in-memory version

---
 cddm/multitau.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 1570894..8332a79 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -433,9 +433,12 @@ def _add_data1(i,x, out, binning = True, r = None):
                     x = x if r > 0.5 else out[j-1,index_top-1,...]
                     out[j,index_low,...] = x                    
             else:
+                #take first element of the pair, same as in slice_data
                 if OPTIMIZE_LAYOUT:
+                    x = out[j-1,...,index_top-1,:]
                     out[j,...,index_low,:] = x
                 else:
+                    x = out[j-1,index_top-1,...]
                     out[j,index_low,...] = x
             
             index_top = index_low
@@ -484,10 +487,15 @@ def _add_data2(i,x1, x2, out1, out2, binning = True, r = None):
                     out1[j,index_low,...] = x1
                     out2[j,index_low,...] = x2                    
             else:
+                #take first element of the pair, same as in slice_data
                 if OPTIMIZE_LAYOUT:
+                    x1 = out1[j-1,...,index_top-1,:]
+                    x2 = out2[j-1,...,index_top-1,:]
                     out1[j,...,index_low,:] = x1
                     out2[j,...,index_low,:] = x2
                 else:
+                    x1 = out1[j-1,index_top-1,...]
+                    x2 = out2[j-1,index_top-1,...]
                     out1[j,index_low,...] = x1
                     out2[j,index_low,...] = x2            
             index_top = index_low
-- 
2.43.0


From 8b879442153069e9a9ca0a1015f90bcdd72a7af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 07/52] fix: same random selection for all data of in-memory
 multitau with BINNING_CHOOSE

---
 cddm/multitau.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 8332a79..b1600b0 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -271,11 +271,13 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     #do multi-tau caluclation
 
     for i in range(nlevel):
-        f1 = _bin(f1,axis, new_axis)
-        f2 = _bin(f2,axis, new_axis) if cross else None
+        #same random selection for all data of this level
+        r = np.random.rand()
+        f1 = _bin(f1,axis, new_axis, r = r)
+        f2 = _bin(f2,axis, new_axis, r = r) if cross else None
         if (norm & NORM_STRUCTURED) and correlate:
-            f1s = _bin(f1s,axis, new_axis)
-            f2s = _bin(f2s,axis, new_axis) if cross else None
+            f1s = _bin(f1s,axis, new_axis, r = r)
+            f2s = _bin(f2s,axis, new_axis, r = r) if cross else None
         axis = new_axis
                 
         _out =  tuple(((d[i] if d is not None else None) for d in data_slow))
-- 
2.43.0


From ae8a56b96637d7a838f9f3524f9eccc73898812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 08/52] fix: uninitialised first element of the increasing
 filter

---
 cddm/_core_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index 549e6cf..cf244a2 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -223,7 +223,7 @@ def decreasing(array, out):
 def increasing(array,out):
     """Performs increasing filter. Each next element must be greater or equal"""
     n = len(array)
-    for i in range(1,n):
+    for i in range(n):
         if i == 0:
             out[0] = array[0]
         else:
-- 
2.43.0


From 1f4f11168f6d07fec33b53e17dfc386f988acce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 09/52] fix: k_select with a scalar k

---
 cddm/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/map.py b/cddm/map.py
index 6c2ada4..1927bcc 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -668,7 +668,7 @@ def k_select(data, angle , sector = 5, kstep = 1, k = None, shape = None, mask =
         return tuple((data for data in iterator if data is not None))       
     except TypeError:
         #not iterable
-        return _k_select(data, k, indexmap, kmap, mask)
+        return _k_select(data, k, indexmap, kmap, mask, masked_data)
     
 #
 #if __name__ == "__main__":
-- 
2.43.0


From dde959d53e49e01997797e866b452a5289a501e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 10/52] fix: sectors crossing the +-180 degrees line use the
 same boundary convention as other sectors

---
 cddm/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index 1927bcc..8f6b9d5 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -84,7 +84,7 @@ def sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):
         negate = True
         
     if negate:
-        fmask = (anglemap <= high) & (anglemap > low)
+        fmask = (anglemap < high) & (anglemap >= low)
         fmask = np.logical_not(fmask)
     else:
         fmask = (anglemap < high) & (anglemap >= low)
@@ -147,7 +147,7 @@ def fft2_sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):
         negate = True
         
     if negate:
-        fmask = (anglemap <= high) & (anglemap > low)
+        fmask = (anglemap < high) & (anglemap >= low)
         fmask = np.logical_not(fmask)
     else:
         fmask = (anglemap < high) & (anglemap >= low)
-- 
2.43.0


From 0db6050d78ba9844d9e5afe361e8d1dac2725919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 11/52] fix: rfft2_crop and fft2_crop with kimax or kjmax equal
 to zero

---
 cddm/fft.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index 416dc6d..c63e898 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -150,7 +150,8 @@ def rfft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
+        if istop > 1:
+            out[...,-istop+1:,:] = x[...,-istop+1:,:jstop] 
         return out
     
 def fft2_crop(x, kimax = None, kjmax = None):
@@ -180,9 +181,12 @@ def fft2_crop(x, kimax = None, kjmax = None):
         
         out = np.empty(shape = x.shape[:-2] + shape, dtype = x.dtype)
         out[...,:istop,:jstop] = x[...,:istop,:jstop] 
-        out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
-        out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
-        out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
+        if istop > 1:
+            out[...,-istop+1:,:jstop] = x[...,-istop+1:,:jstop] 
+        if jstop > 1:
+            out[...,:istop,-jstop+1:] = x[...,:istop,-jstop+1:] 
+        if istop > 1 and jstop > 1:
+            out[...,-istop+1:,-jstop+1:] = x[...,-istop+1:,-jstop+1:] 
         return out
        
 def rfft2_video(video, kimax = None, kjmax = None, overwrite_x = False, extra = {}):
-- 
2.43.0


From cfcaab9da8d53ee22d6bcca9cb961dd5ca8d365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 12/52] fix: draw_psf writes out of frame bounds for particles
 wider than the frame

---
 cddm/_sim_nb.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index 8be99d4..e29efd7 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -139,21 +139,8 @@ def draw_psf(im, points, intensity, sigma):
         for i0 in range(h-size,h+size+1):
             for j0 in range(w -size, w+size+1):
                 p = psf_gauss(i0,h0,j0,w0,sigma[k],intensity[k])
-                #j = j0 % width
-                #i = i0 % height
-                
-                # slightly faster implementation of flooring
-                if j0 >= width:
-                    j= j0 - width
-                elif j0 < 0:
-                    j = width + j0
-                else:
-                    j = j0
-                if i0>= height:
-                    i = i0 - height
-                elif i0 < 0:
-                    i = height + i0
-                else:
-                    i = i0
+                #particle can be wider than the frame, so wrap with modulo
+                j = j0 % width
+                i = i0 % height
                 im[i,j] = im[i,j] + p
     return im  
\ No newline at end of file
-- 
2.43.0


From 4d460e8e7a2390fed58e254b010cf12543f32fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 13/52] fix: callable velocity of brownian_walk is per unit
 time, scale it with dt

---
 cddm/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index ac3bae6..64cae1c 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -138,7 +138,7 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
 
         if callable(velocity):
             _velocity = velocity(x)
-            _velocity = np.asarray(_velocity, FDTYPE)
+            _velocity = np.asarray(_velocity, FDTYPE)*dt
         if callable(delta):
             _delta = delta(x)
             _scale = _delta*np.sqrt(dt)
-- 
2.43.0


From 8a144a4191c4aead75a9f307fe72732fe184c013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 14/52] fix: callable delta of brownian_walk returning one
 value per particle, as documented

---
 cddm/sim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index 64cae1c..c26f01b 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -141,8 +141,10 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
             _velocity = np.asarray(_velocity, FDTYPE)*dt
         if callable(delta):
             _delta = delta(x)
-            _scale = _delta*np.sqrt(dt)
-            _scale = np.asarray(_scale, FDTYPE)
+            _scale = np.asarray(_delta, FDTYPE)*np.sqrt(dt)
+            if _scale.ndim == 1:
+                #one value per particle, same for both coordinates
+                _scale = _scale[:,None]
             
         x = make_step(x,_scale, _velocity) 
         x = mirror(x,x1,x2)
-- 
2.43.0


From b057aaee36c86bc7c27efbf748c654649078bb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 15/52] fix: particles_video lost frames when one camera was
 triggered more than once before the other

---
 cddm/sim.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index c26f01b..d1789eb 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -233,8 +233,9 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
     height, width = shape
     
         
-    out1 = None
-    out2 = None
+    #frames waiting to be paired
+    out1 = []
+    out2 = []
     
     t1 = list(t1)
     t2 = list(t2) if t2 is not None else None
@@ -264,20 +265,19 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
         if i in t1[:1]:
             t1.pop(0)
             data1 = coordinate_transform(data, shape, offset = offset, rotation = rotation)
-            out1 = get_frame(data1)   
+            out1.append(get_frame(data1))
             
         if t2 is not None and i in t2[:1]:
             t2.pop(0)
-            out2 = get_frame(data)  
+            out2.append(get_frame(data))
             
         if t2 is not None:
-            if out1 is not None and out2 is not None:
-                yield out1, out2
-                out1, out2 = None, None
+            #one camera may be several triggers ahead of the other
+            if out1 and out2:
+                yield out1.pop(0), out2.pop(0)
         else:
-            if out1 is not None:
-                yield out1,
-                out1 = None     
+            if out1:
+                yield out1.pop(0),
 
 def data_trigger(data, indices):
     """A generator that selects data from an iterator 
-- 
2.43.0


From e9ea071828ca907349553bbcd625f69957d0d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 16/52] fix: weighted normalization uses dimensionless noise
 delta regardless of scale

---
 cddm/norm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 6363f8e..64cf410 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -574,11 +574,11 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         weighted_data = base_data
         
         if norm & NORM_SUBTRACTED:
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask)
         else:
             bg1 = bg1 / (scale_factor(variance,mask))**0.5 if scale == True else bg1
             bg2 = bg2 / (scale_factor(variance,mask))**0.5  if scale == True else bg2
-            delta = noise_delta(variance, mask, scale = scale)
+            delta = noise_delta(variance, mask)
         
         if weight is None:
             weight = weight_from_data(weighted_data, delta, scale_factor = _scale_factor, mode = mode)
-- 
2.43.0


From e5bbff6711eefeb7de828818f2ee7adfefa224ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 17/52] fix: noise_delta of integer variance data

---
 cddm/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index 64cf410..f0aa82c 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -251,7 +251,7 @@ def noise_delta(variance, mask = None, scale = True):
         v1, v2 = variance
         delta = (np.asarray(v2) - np.asarray(v1))
         scale = (np.asarray(v1) + np.asarray(v2)) if scale == True else 2.
-        delta /= scale
+        delta = delta / scale
     except:
         #single data has delta = 0.
         scale = np.asarray(variance) 
-- 
2.43.0


From 2127e3aed4ec04e79f59938eb28068d0be4b76df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 18/52] fix: enable_prints(level) restores the given verbosity
 level

---
 cddm/print_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cddm/print_tools.py b/cddm/print_tools.py
index 2275681..25f530d 100644
--- a/cddm/print_tools.py
+++ b/cddm/print_tools.py
@@ -51,6 +51,7 @@ def enable_prints(level = None):
     """Enable message printing. Returns previous verbosity level"""
     #set verbosity to positve value
     value = cddm.conf.CDDMConfig.verbose if level is None else int(level)
-    cddm.conf.CDDMConfig.verbose =  abs(cddm.conf.CDDMConfig.verbose)
+    #if level is given, we restore it exactly, it may be disabled by the outer caller
+    cddm.conf.CDDMConfig.verbose = abs(value) if level is None else value
     return value
                                         
\ No newline at end of file
-- 
2.43.0


From 54f92992a4448de76a850b4a8f2e9077cb1d924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 19/52] fix: failed normalization leaves message printing
 disabled

---
 cddm/multitau.py | 13 +++++++------
 cddm/norm.py     | 17 +++++++++--------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index b1600b0..346aaf4 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1742,12 +1742,13 @@ def normalize_multi(data, background = None, variance = None, norm = None,  mode
     #     multi = normalize(multi, background = background, variance = variance, norm = norm, mode = mode,
     #               scale = scale, mask = mask)  
     
-    lin = normalize(lin, background = background, variance = variance, norm = norm, mode = mode,
-              scale = scale, mask = mask)
-    multi = normalize(multi, background = background, variance = variance, norm = norm, mode = mode,
-              scale = scale, mask = mask)  
-
-    enable_prints(level)        
+    try:
+        lin = normalize(lin, background = background, variance = variance, norm = norm, mode = mode,
+                  scale = scale, mask = mask)
+        multi = normalize(multi, background = background, variance = variance, norm = norm, mode = mode,
+                  scale = scale, mask = mask)  
+    finally:
+        enable_prints(level)        
     return lin, multi
 
 #if __name__ == "__main__":
diff --git a/cddm/norm.py b/cddm/norm.py
index f0aa82c..b9326b6 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -562,12 +562,15 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
     
     if (norm & NORM_WEIGHTED == NORM_WEIGHTED):
         level = disable_prints()
-        norm_comp = (norm & (NORM_SUBTRACTED | NORM_COMPENSATED)) | NORM_STRUCTURED
-        comp_data = normalize(data, background, variance, norm = norm_comp,  mode = mode, 
-              scale = scale, mask = mask)
-        norm_base = (norm & (NORM_SUBTRACTED| NORM_COMPENSATED))| NORM_STANDARD
-        base_data = normalize(data, background, variance, norm = norm_base,  mode = mode, 
-              scale = scale, mask = mask)
+        try:
+            norm_comp = (norm & (NORM_SUBTRACTED | NORM_COMPENSATED)) | NORM_STRUCTURED
+            comp_data = normalize(data, background, variance, norm = norm_comp,  mode = mode, 
+                  scale = scale, mask = mask)
+            norm_base = (norm & (NORM_SUBTRACTED| NORM_COMPENSATED))| NORM_STANDARD
+            base_data = normalize(data, background, variance, norm = norm_base,  mode = mode, 
+                  scale = scale, mask = mask)
+        finally:
+            enable_prints(level)
         
         _scale_factor = 1. if scale == True else scale_factor(variance,mask)
         
@@ -616,8 +619,6 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         #         weight = weight_prime_from_data(y_avg, bg1, bg2, delta, scale_factor = _scale_factor, mode = mode)
         #     weight = _nb.log_interpolate(x_interp,x_avg, weight)
         
-        enable_prints(level) 
-        
         if ret_weight == True:
             return weighted_sum(comp_data, base_data,weight), weight
         else:
-- 
2.43.0


From e710322fbb355d337840f03902d4cc206ad45711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 20/52] fix: scalar t1 and t2 of iterative functions, as
 documented

---
 cddm/multitau.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 346aaf4..af8a8e8 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -545,10 +545,15 @@ def _inspect_t1_t2_count(t1,t2,count,data):
         t1 = np.arange(int(count))
     else:
         t1 = np.asarray(t1)  
+        if t1.ndim == 0:
+            #then t1 is the length of regular spaced data, so make t1
+            t1 = np.arange(int(t1))
     if count is None:
         count = len(t1)
     count = int(count)
     t2 = np.asarray(t2) if t2 is not None else t1 
+    if t2.ndim == 0:
+        t2 = np.arange(int(t2))
     if count > len(t1):
         raise ValueError("`count` is too large for given time arrays")
     if len(t1) != len(t2):
-- 
2.43.0


From 9431f84c1f3a0c66b616ee098c48b49534ac09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 21/52] fix: default n of iccorr and iacorr and default norm of
 iacorr

---
 cddm/core.py     | 2 +-
 cddm/multitau.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 1b006e5..6560200 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -1403,7 +1403,7 @@ def iccorr(data, t1 = None, t2 = None, n = None, norm = None, method = "corr", c
     else:
         return data
 
-def iacorr(data, t = None, n = None, norm = 0, method = "corr", count = None,
+def iacorr(data, t = None, n = None, norm = None, method = "corr", count = None,
                 chunk_size = None, thread_divisor = None,  
                 auto_background = False,  viewer = None, viewer_interval = 1, mode = "full", mask = None, stats = True, complex = False):
     """Iterative version of :func:`ccorr`
diff --git a/cddm/multitau.py b/cddm/multitau.py
index af8a8e8..329306e 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -741,7 +741,8 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
     t1,t2, count = _inspect_t1_t2_count(t1,t2,count,data)
     correlate = False if method == "diff" else True
         
-    level_size = int(level_size)
+    #longest possible output by default
+    level_size = count if level_size is None else int(level_size)
    
     chunk_size = _default_chunk_size(chunk_size,count,level_size)
     
-- 
2.43.0


From 153051f0ed8082fa76f2fe8737380cb58d72f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 22/52] fix: threaded yields None after the last frame

---
 cddm/video.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cddm/video.py b/cddm/video.py
index 265ba75..e0ec7d1 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -594,10 +594,9 @@ def threaded(video, queue_size = 0):
     while True:
         out = q.get()
         q.task_done()
-        yield out
-                
         if out is None:
             break
+        yield out
         
 def figure_title(name):
     """Generate a unique figure title"""
-- 
2.43.0


From 181274c463706db297ad922239464dbcf02b1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 23/52] fix: threaded and play_threaded silently truncate the
 video when the source fails

---
 cddm/video.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cddm/video.py b/cddm/video.py
index e0ec7d1..05f7c1d 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -517,11 +517,15 @@ def play_threaded(video, fps = None):
     
     """
     q = Queue()
+    errors = []
     
     def worker(video):
         try:
             for frames in video: 
                 q.put(frames)
+        except Exception as e:
+            #raised in the main thread, after all valid frames are processed
+            errors.append(e)
         finally:
             q.put(None)
     
@@ -563,6 +567,9 @@ def play_threaded(video, fps = None):
         pause()
             
     _FIGURES.clear()
+
+    if errors:
+        raise errors[0]
     
 def threaded(video, queue_size = 0):
     """
@@ -581,11 +588,15 @@ def threaded(video, queue_size = 0):
         A multi-frame iterator
     """
     q = Queue(queue_size)
+    errors = []
     
     def worker(video):
         try:
             for frames in video: 
                 q.put(frames)
+        except Exception as e:
+            #raised in the main thread, after all valid frames are processed
+            errors.append(e)
         finally:
             q.put(None)
     
@@ -597,6 +608,9 @@ def threaded(video, queue_size = 0):
         if out is None:
             break
         yield out
+
+    if errors:
+        raise errors[0]
         
 def figure_title(name):
     """Generate a unique figure title"""
-- 
2.43.0


From a02876dba4570c9d3ba4964603de6167578f686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 24/52] fix: asmemmaps of any iterable video, not just
 iterators

---
 cddm/video.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cddm/video.py b/cddm/video.py
index 05f7c1d..0bc1d34 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -133,6 +133,8 @@ def asmemmaps(basename, video, count = None):
     print1("Writing to memmap...")
     print_progress(0, count)
     
+    video = iter(video)
+    
     frames = next(video)
     out = _empty_arrays(frames)
     [_load(out[i][0],frame) for i,frame in enumerate(frames)]
-- 
2.43.0


From 2f4dac797f5156859ea4104e69a92b43a47b7e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 25/52] fix: asarrays and asmemmaps return uninitialized frames
 for short videos

---
 cddm/video.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cddm/video.py b/cddm/video.py
index 0bc1d34..d6d19d5 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -85,9 +85,12 @@ def asarrays(video, count = None):
     frames = next(video)
     out = tuple((np.empty(shape = (count,) + frame.shape, dtype = frame.dtype) for frame in frames))
     [_load(out[i][0],frame) for i,frame in enumerate(frames)]
+    j = -1 #in case there is only one frame
     for j,frames in enumerate(video):
         print_progress(j+1, count)
         [_load(out[i][j+1],frame) for i,frame in enumerate(frames)]
+    if j + 2 < count:
+        raise ValueError("Video too short, expected {} frames, got {}".format(count, j + 2))
         
     print_progress(count, count)
     print_frame_rate(count,t0)
@@ -138,9 +141,12 @@ def asmemmaps(basename, video, count = None):
     frames = next(video)
     out = _empty_arrays(frames)
     [_load(out[i][0],frame) for i,frame in enumerate(frames)]
+    j = -1 #in case there is only one frame
     for j,frames in enumerate(video):
         print_progress(j+1, count)
         [_load(out[i][j+1],frame) for i,frame in enumerate(frames)]
+    if j + 2 < count:
+        raise ValueError("Video too short, expected {} frames, got {}".format(count, j + 2))
     
     print_progress(count, count)   
     return out
-- 
2.43.0


From 0724f692aff31cfd8d679d4dafcb248914f906ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 26/52] fix: viewers with matplotlib 3.11

---
 cddm/viewer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 60f9979..0a81312 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -12,12 +12,15 @@ from cddm.decorators import doc_inherit, skip_runtime_error
 
 
 _matplotlib_3_4_or_greater = False
+_matplotlib_3_11_or_greater = False
 
 try:
     import matplotlib
     major, minor = matplotlib.__version__.split(".")[0:2]
     if int(major) >= 3 and int(minor) >=4:
         _matplotlib_3_4_or_greater = True
+    if (int(major), int(minor)) >= (3,11):
+        _matplotlib_3_11_or_greater = True
 except:
     print("Could not determine matplotlib version you are using, assuming < 3.4")
 
@@ -206,6 +209,12 @@ class CustomRadioButtons(RadioButtons):
             The orientation of the buttons: 'vertical' (default), or 'horizontal'.
         Further parameters are passed on to `Legend`.
         """
+        if _matplotlib_3_11_or_greater:
+            #orientation is supported, and there is no need for any customization
+            RadioButtons.__init__(self, ax, labels, active=active, activecolor=activecolor, 
+                                  layout=orientation, radio_props={"s" : size}, **kwargs)
+            return
+            
         AxesWidget.__init__(self, ax)
         self.activecolor = activecolor
         axcolor = ax.get_facecolor()
@@ -241,10 +250,10 @@ class CustomRadioButtons(RadioButtons):
             self.cnt = 0
             self.observers = {}
 
-        self.connect_event('pick_event', self._clicked)
+        self.connect_event('pick_event', self._picked)
 
 
-    def _clicked(self, event):
+    def _picked(self, event):
         if (self.ignore(event) or event.mouseevent.button != 1 or
             event.mouseevent.inaxes != self.ax):
             return
-- 
2.43.0


From a6162bfe1e078b53478e846253a36eb77e7ae71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 27/52] fix: viewers fold complex data even if fold is set to
 False

---
 cddm/viewer.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 0a81312..415870f 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -508,10 +508,11 @@ class CorrArrayViewer(DataArrayViewer):
         data = normalize(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.mask)
 
         if np.iscomplexobj(data) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
-                data = fold_data(data)
-            elif self.background is None and self.variance is None:
+            if self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
+            fold = self.fold if self.fold is not None else isinstance(self.background, tuple) or isinstance(self.variance, tuple)
+            if fold:
+                data = fold_data(data)
 
         if self.size is not None:
             # folding has already been made, so set to False
@@ -571,10 +572,11 @@ class MultitauArrayViewer(CorrArrayViewer):
         data = normalize_multi(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.mask)
         
         if np.iscomplexobj(data[0]) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
-                data = fold_data(data[0],1), fold_data(data[1],1)
-            elif self.background is None and self.variance is None:
+            if self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
+            fold = self.fold if self.fold is not None else isinstance(self.background, tuple) or isinstance(self.variance, tuple)
+            if fold:
+                data = fold_data(data[0],1), fold_data(data[1],1)
 
         if self.semilogx == True:
             t, data = log_merge(*data, fold = False)
@@ -926,10 +928,11 @@ class CorrViewer(DataViewer):
         data = normalize(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.half_mask)
 
         if np.iscomplexobj(data) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
-                data = fold_data(data)
-            elif self.background is None and self.variance is None:
+            if self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
+            fold = self.fold if self.fold is not None else isinstance(self.background, tuple) or isinstance(self.variance, tuple)
+            if fold:
+                data = fold_data(data)
 
         if self.size is not None:
             # folding has already been made, so set to False
@@ -1010,10 +1013,11 @@ class MultitauViewer(CorrViewer):
         data = normalize_multi(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.half_mask)
         
         if np.iscomplexobj(data[0]) :
-            if isinstance(self.background, tuple) or isinstance(self.variance, tuple) or self.fold is not None:
-                data = fold_data(data[0],1), fold_data(data[1],1)
-            elif self.background is None and self.variance is None:
+            if self.fold is None and self.background is None and self.variance is None:
                 raise ValueError("Cannot determine whether data folding is needed. You must explicitly define whether to fold correlation data or not.")
+            fold = self.fold if self.fold is not None else isinstance(self.background, tuple) or isinstance(self.variance, tuple)
+            if fold:
+                data = fold_data(data[0],1), fold_data(data[1],1)
 
         if self.semilogx == True:
             t, data = log_merge(*data, fold = False)
-- 
2.43.0


From 57a859c849ddb88ae963036a7e1cd0a7de4b0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 28/52] fix: delay-dependent sums of complex data that is not
 CDTYPE drop the imaginary part

---
 cddm/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 6560200..efdc66a 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -86,9 +86,9 @@ def _inspect_cross_arguments(f1,f2,t1,t2,axis,n, aout, dtype = CDTYPE, aout_full
     f2 = np.asarray(f2, dtype)
     
     if f1.dtype not in (FDTYPE, CDTYPE) and dtype is None:
-        f1 = np.asarray(f1, FDTYPE)
+        f1 = np.asarray(f1, CDTYPE if np.iscomplexobj(f1) else FDTYPE)
     if f2.dtype not in (FDTYPE, CDTYPE) and dtype is None:
-        f2 = np.asarray(f2, FDTYPE)
+        f2 = np.asarray(f2, CDTYPE if np.iscomplexobj(f2) else FDTYPE)
     
     ndim = f1.ndim
 
@@ -147,7 +147,7 @@ def _inspect_auto_arguments(f,t,axis,n,aout, dtype = CDTYPE):
                 
     f = np.asarray(f, dtype)
     if f.dtype not in (FDTYPE, CDTYPE) and dtype is None:
-        f = np.asarray(f, FDTYPE)
+        f = np.asarray(f, CDTYPE if np.iscomplexobj(f) else FDTYPE)
         
     ndim = f.ndim
 
-- 
2.43.0


From 2f7d1d6994643390aaa51567a752e1c0688ceb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 29/52] fix: iterative auto-difference in full mode raises
 UnboundLocalError

---
 cddm/multitau.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index 329306e..762444d 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -825,6 +825,7 @@ def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16,
             else:
                 out_fast, count_fast, m1_fast, m2_fast = data_fast         
                 out_slow, count_slow, m1_slow, m2_slow = data_slow
+                sq_fast, sq_slow = None, None
                 
             fdata1, fdata2 = _init_data_f(n_decades, half_chunk_size, shape, cross = cross)
             
-- 
2.43.0


From 3235b229c4186b5f1533cafd48da576d99f970fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 30/52] fix: multitau and reshape_input mix up pixels if time
 axis is not the first one

---
 cddm/core.py     | 7 ++++---
 cddm/multitau.py | 2 ++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index efdc66a..7b02f49 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -317,9 +317,10 @@ def reshape_input(f, axis = 0, thread_divisor = None, mask = None):
     shape = list(f.shape)
     n = shape.pop(axis)
     force_2d = True if mask is None else False
-    new_shape = list(thread_frame_shape(shape, thread_divisor, force_2d))
-    new_shape.insert(axis, n)
-    return f.reshape(new_shape), tuple(shape)
+    new_shape = tuple(thread_frame_shape(shape, thread_divisor, force_2d))
+    #frame dimensions must be adjacent for reshaping, so reshape with time axis first
+    f = np.moveaxis(f, axis, 0).reshape((n,) + new_shape)
+    return np.moveaxis(f, 0, min(axis, len(new_shape))), tuple(shape)
 
 def reshape_frame(frame, shape, mask = None): 
     x = frame.reshape(shape)
diff --git a/cddm/multitau.py b/cddm/multitau.py
index 762444d..d94669f 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -177,10 +177,12 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     else:
         f1,t1,axis,level_size = _inspect_auto_arguments(f1,t1,axis,level_size, None)
     
+    axis = list(range(np.ndim(f1)))[axis]#make it a positive integer
     #reshape input data for faster threaded execution.
     f1, kshape = reshape_input(f1, axis = axis, thread_divisor = thread_divisor, mask = mask)
     if cross:
         f2, kshape = reshape_input(f2, axis = axis, thread_divisor = thread_divisor, mask = mask)
+    axis = min(axis, f1.ndim - 1)
 
     new_axis = -2 if f1.ndim > 1 else -1    
 
-- 
2.43.0


From f2ab91e040728b9b77c00dada84474e059dcdd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 31/52] fix: output array is not used in weighted normalization

---
 cddm/norm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index b9326b6..e911013 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -620,9 +620,9 @@ def normalize(data, background = None, variance = None, norm = None,  mode = "co
         #     weight = _nb.log_interpolate(x_interp,x_avg, weight)
         
         if ret_weight == True:
-            return weighted_sum(comp_data, base_data,weight), weight
+            return weighted_sum(comp_data, base_data,weight, out), weight
         else:
-            return weighted_sum(comp_data, base_data,weight)
+            return weighted_sum(comp_data, base_data,weight, out)
         
     count = data[1]
     
-- 
2.43.0


From 28d72a94864e1ce4fcac1a10a3848906cdf3cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 32/52] fix: fold_data with mode = -1 is shifted by one delay

---
 cddm/norm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index e911013..debe6ac 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -856,10 +856,9 @@ def fold_data(data, mode = 0):
             out[...,1:] += np.conj(data[...,-1:-n:-1])
             out[...,1:] /= 2
     else:
-        #take all negative values and largest positive value
-        out = data[...,-1:-n-1:-1].copy()
-        #first one is zero, so overwrite the largest positive value.
-        out[...,0] = data[...,0]
+        #zero delay value, followed by all negative values
+        out = data[...,0:n].copy()
+        out[...,1:] = data[...,-1:-n:-1]
         
     return out
 
-- 
2.43.0


From 7d391670b8cb7082c972235dc69adf0146dd7628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 33/52] fix: effective multilevel count is misaligned if the
 kernel is larger than the data

---
 cddm/multitau.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index d94669f..a674d65 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -1344,8 +1344,11 @@ def multilevel_count(count, level_size, binning = BINNING_MEAN):
             kernel = np.array([1.]) #np.array([1./2**l])
         kernel2 = kernel**2
         
-        data = np.convolve(kernel2, count2, "same")
-        norm = np.convolve(kernel, count , "same")
+        #kernel can be larger than the data, so do not use mode = "same"
+        start = len(kernel)//2
+        stop = start + count.shape[-1]
+        data = np.convolve(kernel2, count2)[start:stop]
+        norm = np.convolve(kernel, count)[start:stop]
         data_sliced = data[0::2**l][0:size]
         norm_sliced = norm[0::2**l][0:size]
         n_sliced = data_sliced.shape[-1]
-- 
2.43.0


From 6a6e5d2eb746e3b2c501c105133f483e21fb7766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 34/52] fix: shift_data and equalize_data do not remove the
 common phase shift and flip the sign of data

---
 cddm/norm.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index debe6ac..b03caa5 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -762,6 +762,14 @@ def take_data(data, mask):
         
     return tuple((_mask(i,d) for (i,d) in enumerate(data)))
 
+def _mean_phase(zero, pos, neg):
+    """Returns mean phase factor of pos and neg data, without the common phase 
+    shift of the cross-correlation data, as defined by the zero delay data."""
+    shift = np.exp(1j*np.angle(zero))
+    pos = pos * np.conj(shift)
+    neg = neg * shift
+    return np.exp(1j*(np.angle(pos) + np.angle(neg*np.conj(pos))/2.))
+
 def shift_data(data):
     """Phase shifts input complex correlation data so that out[...,0] is real,
     and that phase of out[...,i] equals the phase of out[...,-i].conj(),
@@ -780,11 +788,7 @@ def shift_data(data):
     pos = data[...,1:n]
     neg = np.conj(data[...,-1:-n:-1])
     
-    pos_phase = np.arctan2(pos.imag, pos.real)
-    neg_phase = np.arctan2(neg.imag, neg.real)
-    
-    phase = (pos_phase - neg_phase)/2.
-    exp_phase = np.exp(1j*phase)
+    exp_phase = _mean_phase(data[...,0:1], pos, neg)
 
     out[...,1:n] = np.abs(pos) * exp_phase
     out[...,-1:-n:-1] = np.abs(neg) * np.conj(exp_phase)
@@ -809,7 +813,7 @@ def equalize_data(data):
     pos = data[...,1:n]
     neg = np.conj(data[...,-1:-n:-1])
     
-    tmp = np.sqrt(pos * neg)
+    tmp = np.sqrt(np.abs(pos) * np.abs(neg)) * _mean_phase(data[...,0:1], pos, neg)
     
     out[...,1:n] = tmp
     out[...,-1:-n:-1] = np.conj(tmp)
-- 
2.43.0


From 37bd495847924ca54cc8b51f8a7b185ddacdd0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 35/52] fix: log_interpolate does not reproduce data at its
 nodes if x starts with zero

---
 cddm/_core_nb.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/cddm/_core_nb.py b/cddm/_core_nb.py
index cf244a2..981f2d3 100644
--- a/cddm/_core_nb.py
+++ b/cddm/_core_nb.py
@@ -102,28 +102,22 @@ def _log_interpolate(x_new, x,y, out):
     """Linear interpolation in semilogx space."""
     assert len(x) >= 2
     for i in range(len(x_new)):
-        xi = x_new[i]
-        log = False
-        if xi > 1:
-            xi = np.log(xi)
-            log = True
         for j in range(1,len(x)):
-            x0 = x[j-1]
-            x1 = x[j]            
-            if x0 >= 1 and log == True:
-                x0 = np.log(x0)
-                x1 = np.log(x1)
-            if x_new[i] <= x[j]:
-                #interpolate or extrapolate backward
+            #interpolate, extrapolate backward or, with the last pair of points, forward
+            if x_new[i] <= x[j] or j == len(x) - 1:
+                #log is not defined at zero, interpolate linearly here
+                if x[j-1] >= 1 and x_new[i] > 1:
+                    xi = np.log(x_new[i])
+                    x0 = np.log(x[j-1])
+                    x1 = np.log(x[j])
+                else:
+                    xi = float(x_new[i])
+                    x0 = float(x[j-1])
+                    x1 = float(x[j])
                 deltay = y[j] - y[j-1]
-                deltax = x1-x0
+                deltax = x1 - x0
                 out[i] = (xi - x0) * deltay / deltax +  y[j-1]
                 break
-        #extrapolate forward for data points outside of the domain
-        if xi > x1:            
-            deltay = y[-1] - y[-2]
-            deltax = x1 - x0
-            out[i] = (xi - x0) * deltay/deltax +  y[-2]    
 
 def log_interpolate(x_new, x,y, out = None):
     """Linear interpolation in semilogx space."""
-- 
2.43.0


From c059b3bc9ae8be1a2a5cb280b13b00075a031fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 36/52] fix: pixels at the edge of two annuli belong to none
 because of rounding

---
 cddm/map.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index 8f6b9d5..3f73da0 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -89,8 +89,9 @@ def sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):
     else:
         fmask = (anglemap < high) & (anglemap >= low)
     
-    for i,k in enumerate(ks):
-        kmask = (kmap <= (k + kstep/2.)) &  (kmap > (k - kstep/2.))
+    for i in range(len(ks)):
+        #upper edge must be exactly the same number as the lower edge of the next one
+        kmask = (kmap <= (i + 0.5) * kstep) &  (kmap > (i - 0.5) * kstep)
         mask = kmask & fmask
         out[mask] = i
     half = kmap.shape[0]//2+1
@@ -152,8 +153,9 @@ def fft2_sector_indexmap(kmap, anglemap, angle = 0., sector = 30., kstep = 1.):
     else:
         fmask = (anglemap < high) & (anglemap >= low)
     
-    for i,k in enumerate(ks):
-        kmask = (kmap <= (k + kstep/2.)) &  (kmap > (k - kstep/2.))
+    for i in range(len(ks)):
+        #upper edge must be exactly the same number as the lower edge of the next one
+        kmask = (kmap <= (i + 0.5) * kstep) &  (kmap > (i - 0.5) * kstep)
         mask = kmask & fmask
         out[mask] = i
 
-- 
2.43.0


From f75b5b3c1ed270fd7d9e0eaa65d306b228dcdc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:37 +0000
Subject: [PATCH 37/52] fix: k_select of rfft2 data raises IndexError and
 averages k over masked-out pixels

---
 cddm/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/map.py b/cddm/map.py
index 3f73da0..54f2a4e 100644
--- a/cddm/map.py
+++ b/cddm/map.py
@@ -311,14 +311,14 @@ def _k_select_complex(data, k, indexmap, kmap, computed_mask, masked_data):
     
 def _k_select_real(data, k, indexmap, kmap, computed_mask, masked_data):
     mask = (indexmap == int(round(k)))
-    ks = kmap[mask]
-    mask = as_rfft2_mask(mask)
     conj_mask = as_rfft2_conj(mask)
+    mask = as_rfft2_mask(mask)
     
     if computed_mask is not None:
         mask = mask & computed_mask
         conj_mask = conj_mask & computed_mask
         
+    ks = as_rfft2_data(kmap)[mask]
     
     if masked_data == True:
         mask = mask[computed_mask]
-- 
2.43.0


From f0f220430e97a6d8f0664ba1dc174b20933c0b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 38/52] fix: worker thread of an abandoned threaded or
 play_threaded iterator never ends

---
 cddm/video.py | 70 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 17 deletions(-)

diff --git a/cddm/video.py b/cddm/video.py
index d6d19d5..e51e9a0 100644
--- a/cddm/video.py
+++ b/cddm/video.py
@@ -17,10 +17,10 @@ from cddm.print_tools import print_progress, print1, print_frame_rate
 from cddm.fft import _rfft2
 
 try:
-    from queue import Queue
+    from queue import Queue, Full
 except ImportError:
     #python 2.7
-    from Queue import Queue
+    from Queue import Queue, Full
 
 import threading
 
@@ -527,17 +527,42 @@ def play_threaded(video, fps = None):
     q = Queue()
     errors = []
     
+    stop = threading.Event()
+    
+    def put(frames):
+        #do not block forever if there is no one left to take the frames
+        while not stop.is_set():
+            try:
+                return q.put(frames, timeout = 0.1)
+            except Full:
+                pass
+    
     def worker(video):
         try:
             for frames in video: 
-                q.put(frames)
+                put(frames)
+                if stop.is_set():
+                    break
         except Exception as e:
             #raised in the main thread, after all valid frames are processed
             errors.append(e)
         finally:
-            q.put(None)
+            put(None)
     
     threading.Thread(target=worker,args = (video,) ,daemon=True).start()
+    try:
+        for frames in _play_queue(q, fps):
+            yield frames
+    finally:
+        #also if iteration is abandoned
+        stop.set()
+            
+    _FIGURES.clear()
+
+    if errors:
+        raise errors[0]
+
+def _play_queue(q, fps = None):
     out = False #dummy  
     t0 = None   
     i = 0
@@ -573,11 +598,6 @@ def play_threaded(video, fps = None):
                 queue.task_done()
         i+=1
         pause()
-            
-    _FIGURES.clear()
-
-    if errors:
-        raise errors[0]
     
 def threaded(video, queue_size = 0):
     """
@@ -598,24 +618,40 @@ def threaded(video, queue_size = 0):
     q = Queue(queue_size)
     errors = []
     
+    stop = threading.Event()
+    
+    def put(frames):
+        #do not block forever if there is no one left to take the frames
+        while not stop.is_set():
+            try:
+                return q.put(frames, timeout = 0.1)
+            except Full:
+                pass
+    
     def worker(video):
         try:
             for frames in video: 
-                q.put(frames)
+                put(frames)
+                if stop.is_set():
+                    break
         except Exception as e:
             #raised in the main thread, after all valid frames are processed
             errors.append(e)
         finally:
-            q.put(None)
+            put(None)
     
     threading.Thread(target=worker,args = (video,) ,daemon=True).start()
 
-    while True:
-        out = q.get()
-        q.task_done()
-        if out is None:
-            break
-        yield out
+    try:
+        while True:
+            out = q.get()
+            q.task_done()
+            if out is None:
+                break
+            yield out
+    finally:
+        #also if iteration is abandoned
+        stop.set()
 
     if errors:
         raise errors[0]
-- 
2.43.0


From d11617c67e00e73233b7a3ee6eb8472bfeb4f3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 39/52] fix: 8bit adc returns uint8 image, as documented

---
 cddm/_sim_nb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index e29efd7..413c996 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -83,7 +83,8 @@ def shot_noise_poisson(photon_noise, readout_noise):
         out += np.random.poisson(readout_noise)
     return out
 
-@nb.vectorize([U16(F,F,F, U16), U8(F,F,F, U8)],  cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH) 
+#U8 must be first, or else 8bit input resolves to the U16 version
+@nb.vectorize([U8(F,F,F, U8), U16(F,F,F, U16)],  cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH) 
 def adc_clean(frame, saturation, black_level, maxv):
     out = (frame - black_level)/saturation * maxv
     if out < 0:
-- 
2.43.0


From a7b34e105f8ea9cb0174ad1ac4fcdc2542b369fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 40/52] fix: draw_points writes out of frame bounds for
 particles outside the frame

---
 cddm/_sim_nb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index 413c996..9caa7d6 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -58,8 +58,12 @@ def draw_points(im, points, intensity):
     nparticles = len(data)
     assert points.shape[1] == 2
     assert nparticles == len(intensity)
+    height, width = im.shape
     for j in range(nparticles):
-        im[int(data[j,0]),int(data[j,1])] = im[int(data[j,0]),int(data[j,1])] + intensity[j] 
+        #particle can be out of the frame, so wrap with modulo
+        h = int(math.floor(data[j,0])) % height
+        w = int(math.floor(data[j,1])) % width
+        im[h,w] = im[h,w] + intensity[j] 
     return im  
 
 @nb.jit([F(F,F,F)],nopython = True,cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)
-- 
2.43.0


From dbdbffc182a976163708512a7da886a09d0cc491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 41/52] fix: particles_video of read-only or non-FDTYPE
 coordinates raises TypeError

---
 cddm/sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cddm/sim.py b/cddm/sim.py
index d1789eb..2dddc2e 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -242,6 +242,7 @@ def particles_video(particles, t1, shape = (256,256), t2 = None,
         
     def get_frame(data):
         im = background.copy()
+        data = np.array(data, FDTYPE) #any array-like, also read-only or of a different dtype
 
         if sigma is None:
             _int = np.asarray(intensity, dtype)
-- 
2.43.0


From 8002de23ffacde15b89f22a941c51abca411c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 42/52] fix: import cddm fails if numba is limited to fewer
 threads than there are cores

---
 cddm/conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/conf.py b/cddm/conf.py
index 5517ab1..c386ee4 100644
--- a/cddm/conf.py
+++ b/cddm/conf.py
@@ -353,7 +353,7 @@ set_fft_threads(_readconfig(config.getint, "fft", "nthreads", detect_number_of_c
 try:
     set_numba_threads(_readconfig(config.getint, "numba", "nthreads", detect_number_of_cores()))
 except ValueError:
-    set_numba_threads(numba.get_numba_threads())
+    set_numba_threads(numba.get_num_threads())
     pass
 
 F32 = numba.float32
-- 
2.43.0


From 597ceba738d2f40deec2dd64d151d0bf95fb06f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:44 +0000
Subject: [PATCH 43/52] fix: fft-based sums of irregular data raise TypeError
 in single precision

---
 cddm/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cddm/core.py b/cddm/core.py
index 7b02f49..45b44dc 100644
--- a/cddm/core.py
+++ b/cddm/core.py
@@ -863,7 +863,8 @@ def cross_sum_fft(f, t, t_other = None, axis = 0, n = None, complex = False, tim
         #we need conjugate version of FFT of zero-padded ones at t_other times
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t_other, y)
-        y = _fft(y, overwrite_x = True)
+        #fft library may return double precision data
+        y = np.asarray(_fft(y, overwrite_x = True), CDTYPE)
         
         if complex == False:  
             return _cross_sum_fft(f,y,t,length,out, out)
@@ -959,7 +960,8 @@ def auto_sum_fft(f, t, axis = 0, n = None, aout = None):
         #we need conjugate version of FFT of zero-padded ones at t_other times
         y = np.zeros((length*2), CDTYPE)
         _fill_ones(t, y)
-        y = _fft(y, overwrite_x = True)
+        #fft library may return double precision data
+        y = np.asarray(_fft(y, overwrite_x = True), CDTYPE)
 
         out0 = _cross_sum_fft(f,y,t,length,out0, out0)
 
-- 
2.43.0


From a1fb61cc70b5cadb990572069ae3235f10ad48ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 44/52] fix: weight_prime_from_data raises TypeError in single
 precision

---
 cddm/norm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cddm/norm.py b/cddm/norm.py
index b03caa5..845a23b 100755
--- a/cddm/norm.py
+++ b/cddm/norm.py
@@ -334,8 +334,8 @@ def weight_prime_from_data(corr, bg1, bg2, delta = 0., scale_factor = 1., mode =
         Weight data for weighted sum calculation.
     """
     scale_factor = np.asarray(scale_factor, FDTYPE)
-    delta = np.asarray(delta)
-    bg1, bg2 = np.asarray(bg1), np.asarray(bg2)
+    delta = np.asarray(delta, FDTYPE)
+    bg1, bg2 = np.asarray(bg1, CDTYPE), np.asarray(bg2, CDTYPE)
     if mode == "corr":
         #make sure it is decreasing and clipped between 0 and 1
         if pre_filter == True:
-- 
2.43.0


From 0aeadfacdadc29d3024c383b704671c98a30eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 45/52] fix: simulation raises TypeError in single precision

---
 cddm/sim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cddm/sim.py b/cddm/sim.py
index 2dddc2e..189fe80 100644
--- a/cddm/sim.py
+++ b/cddm/sim.py
@@ -129,7 +129,7 @@ def brownian_walk(x0, count = 1024, shape = (256,256), delta = 1, dt = 1, veloci
     if len(shape) != 2:
         raise ValueError("Wrong `shape`, must be 2D.")
     
-    x1, x2 = 0, np.asarray(shape,FDTYPE)
+    x1, x2 = np.asarray(0,FDTYPE), np.asarray(shape,FDTYPE)
     
     x = mirror(x,x1,x2) #make sure we start in the box
     
@@ -458,6 +458,8 @@ def adc(frame,  saturation = 32768, black_level = 0, bit_depth = "14bit",
         max_value = np.uint8(max_value)
     else:
         max_value = np.uint16(max_value)
+    saturation = np.asarray(saturation, FDTYPE)
+    black_level = np.asarray(black_level, FDTYPE)
     return adc_clean(frame,saturation,black_level, max_value, out = out)
 
 def coordinate_transform(data, shape, offset = None, rotation = None):
@@ -489,12 +491,12 @@ def coordinate_transform(data, shape, offset = None, rotation = None):
     if offset is None:
         offset = rotation_offset
     else:
-        offset = np.asarray(offset) +rotation_offset
+        offset = np.asarray(offset,FDTYPE) +rotation_offset
 
 
     data = _coordinate_rotate(data, rotation = rotation) + offset
         
-    x1, x2 = 0, np.asarray(shape,FDTYPE)
+    x1, x2 = np.asarray(0,FDTYPE), np.asarray(shape,FDTYPE)
     return mirror(data,x1,x2) #make sure we start in the box
         
 def _coordinate_rotate(data, rotation = None):
-- 
2.43.0


From b59bb52f5718aca4c82aa9459ac0fbfb4e4fb718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 46/52] fix: particles overlapping in draw_psf are lost because
 of a data race with the parallel target

---
 cddm/_sim_nb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cddm/_sim_nb.py b/cddm/_sim_nb.py
index 9caa7d6..6e19b98 100644
--- a/cddm/_sim_nb.py
+++ b/cddm/_sim_nb.py
@@ -128,7 +128,7 @@ def adc_16bit(frame, scale, black_level):
     out = _adc_scale(frame, scale, black_level)
     return int(out*65536) if out < 1. else 65535
 
-@nb.jit([U8[:,:](U8[:,:],F[:,:],U8[:],F[:]),U16[:,:](U16[:,:],F[:,:],U16[:],F[:])], nopython = True, parallel = NUMBA_PARALLEL, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)                
+@nb.jit([U8[:,:](U8[:,:],F[:,:],U8[:],F[:]),U16[:,:](U16[:,:],F[:,:],U16[:],F[:])], nopython = True, cache = NUMBA_CACHE, fastmath = NUMBA_FASTMATH)                
 def draw_psf(im, points, intensity, sigma):
     """Draws psf to image from a given points array"""
     assert points.shape[1] == 2
@@ -138,7 +138,8 @@ def draw_psf(im, points, intensity, sigma):
     height, width = im.shape
     
     size = int(round(3*sigma.max()))
-    for k in nb.prange(nparticles):
+    #particles may overlap, so the loop over particles must not run in parallel
+    for k in range(nparticles):
         h0,w0  = points[k,0], points[k,1]
         h,w = int(h0), int(w0) 
         for i0 in range(h-size,h+size+1):
-- 
2.43.0


From c5c41c08be2bfd26ab4446f9ba3ca9e6d462ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 47/52] fix: failed viewer plot leaves message printing
 disabled

---
 cddm/viewer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 415870f..fd57cea 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -380,8 +380,10 @@ class DataArrayViewer(object):
               
         with np.errstate(divide='ignore', invalid='ignore'):
             state = disable_prints()
-            t, avg_data = self.get_data()
-            enable_prints(state)            
+            try:
+                t, avg_data = self.get_data()
+            finally:
+                enable_prints(state)            
         try:
             self.l.set_ydata(avg_data)
             self.l.set_xdata(t)
@@ -791,8 +793,10 @@ class DataViewer(object):
                     
         with np.errstate(divide='ignore', invalid='ignore'):
             state = disable_prints()
-            t, avg_data = self.get_data()
-            enable_prints(state)            
+            try:
+                t, avg_data = self.get_data()
+            finally:
+                enable_prints(state)            
         try:
             self.l.set_ydata(avg_data)
             self.l.set_xdata(t)
-- 
2.43.0


From 1857663ff2d9ac0ab6cedf10e344e7ff2785f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 48/52] fix: failed multitau calculation leaves message
 printing disabled

---
 cddm/multitau.py | 46 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/cddm/multitau.py b/cddm/multitau.py
index a674d65..4b78765 100644
--- a/cddm/multitau.py
+++ b/cddm/multitau.py
@@ -31,7 +31,7 @@ from cddm.core import _transpose_data, _inspect_cross_arguments,_default_norm,\
         reshape_input, reshape_output, thread_frame_shape, reshape_frame
 import numpy as np
 
-from cddm.conf import CDTYPE, FDTYPE, IDTYPE
+from cddm.conf import CDTYPE, FDTYPE, IDTYPE, CDDMConfig
 from cddm.print_tools import print_progress,  print_frame_rate, enable_prints, disable_prints
 from cddm.print_tools import print1, print2
 
@@ -41,6 +41,7 @@ from cddm._core_nb import mean, _mean
 from cddm.norm import weighted_sum,weight_from_data, _method_from_data,_inspect_scale,_inspect_mode,_default_norm_from_data, scale_factor, norm_from_string, fold_data
 from cddm.avg import log_interpolate
 
+import functools
 import time
 
 #: placehold for matplotlib plots so that they are not garbage collected diring live view
@@ -224,10 +225,14 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
     v = disable_prints()
     
 
-    if cross == True:
-        data_fast = ccorr(f1,f2,t1,t2, f1s = f1s, f2s = f2s, axis = axis, n = n_fast, norm = norm, method = method, complex = complex)
-    else:
-        data_fast = acorr(f1, t = t1, fs = f1s, axis = axis, n = n_fast, norm = norm, method = method, complex = complex)
+    try:
+        if cross == True:
+            data_fast = ccorr(f1,f2,t1,t2, f1s = f1s, f2s = f2s, axis = axis, n = n_fast, norm = norm, method = method, complex = complex)
+        else:
+            data_fast = acorr(f1, t = t1, fs = f1s, axis = axis, n = n_fast, norm = norm, method = method, complex = complex)
+    except:
+        enable_prints(v)
+        raise
 
     k_shape = data_fast[0].shape[0:-1]
     
@@ -286,12 +291,13 @@ def _compute_multi(f1,f2 = None, t1 = None, t2 = None, axis = 0, period = 1, lev
         
         v = disable_prints() 
 
-        if cross == True:
-            ccorr(f1,f2, f1s = f1s, f2s = f2s,axis = axis, n = n_slow, norm = norm, aout = _out, method = method, complex = complex)
-        else:
-            acorr(f1, fs = f1s,axis = axis, norm = norm, n = n_slow, aout = _out, method = method, complex = complex)
-
-        enable_prints(v)
+        try:
+            if cross == True:
+                ccorr(f1,f2, f1s = f1s, f2s = f2s,axis = axis, n = n_slow, norm = norm, aout = _out, method = method, complex = complex)
+            else:
+                acorr(f1, fs = f1s,axis = axis, norm = norm, n = n_slow, aout = _out, method = method, complex = complex)
+        finally:
+            enable_prints(v)
         progress = progress*0.5
         progress_int = progress_int + int(100*progress)
         
@@ -730,6 +736,24 @@ def _add_sq2(i,x1,x2,sq1,sq2,binning, r = None):
 def _add_sq1(i,x1,sq1,binning, r = None):
     return _add_data1(i,_abs2(x1), sq1, binning,r)  
                        
+def _restore_prints_on_error(gen):
+    """Decorates a generator that disables message printing between the yields."""
+    @functools.wraps(gen)
+    def wrapper(*args, **kw):
+        iterator = gen(*args, **kw)
+        while True:
+            level = CDDMConfig.verbose
+            try:
+                value = next(iterator)
+            except StopIteration:
+                return
+            except:
+                enable_prints(level)
+                raise
+            yield value
+    return wrapper
+
+@_restore_prints_on_error
 def _compute_multi_iter(data, t1, t2 = None, period = 1, level_size = 16, 
                         chunk_size = None,  binning = None, method = "corr", count = None,
                         auto_background = False, nlevel = None,  norm = None,
-- 
2.43.0


From 42c5f8b7654f656a6705dc846dcfdccd1119d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:51 +0000
Subject: [PATCH 49/52] fix: number of fft threads set in the configuration
 file is ignored by pyfftw

---
 cddm/fft.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index c63e898..b96f9a3 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -6,7 +6,7 @@ This module defines several functions for fft processing of multi-frame data.
 from __future__ import absolute_import, print_function, division
 
 import numpy as np
-from cddm.conf import CDDMConfig, MKL_FFT_INSTALLED, SCIPY_INSTALLED, PYFFTW_INSTALLED,  detect_number_of_cores, CDTYPE
+from cddm.conf import CDDMConfig, MKL_FFT_INSTALLED, SCIPY_INSTALLED, PYFFTW_INSTALLED, CDTYPE
 from cddm.decorators import deprecated
 
 #from multiprocessing.pool import ThreadPool
@@ -21,7 +21,6 @@ if PYFFTW_INSTALLED :
    import pyfftw.interfaces as fftw
    import pyfftw
    fftw.cache.enable()
-   pyfftw.config.NUM_THREADS = detect_number_of_cores()
 
 def _fft(a, overwrite_x = False):
     libname = CDDMConfig["fftlib"]
-- 
2.43.0


From d3ca8198e778e2a924390832196cbf5b6c7550c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 50/52] fix: rfft2 of complex frames with scipy library uses
 the imaginary part

---
 cddm/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/fft.py b/cddm/fft.py
index b96f9a3..2bbb3aa 100644
--- a/cddm/fft.py
+++ b/cddm/fft.py
@@ -73,7 +73,7 @@ def _rfft2(a, overwrite_x = False, extra = {}):
         out = mkl_fft.rfftn_numpy(a.real,axes =(-2, -1), **extra)
         #return mkl_fft.fft2(a, overwrite_x = overwrite_x)[...,0:cutoff]
     elif libname == "scipy":
-        out = spfft.fft2(a, overwrite_x = overwrite_x, **extra)[...,0:cutoff]
+        out = spfft.fft2(a.real, overwrite_x = overwrite_x, **extra)[...,0:cutoff] #force real in case input is complex
     elif libname == "numpy":
         out = np.fft.rfft2(a.real, **extra) #force real in case input is complex
     elif libname == "pyfftw":
-- 
2.43.0


From 56fee777581564e5e3ab1659dd244ec08df64f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 51/52] fix: get_k of viewers of masked data raises IndexError

---
 cddm/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index fd57cea..0dfa504 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -730,7 +730,7 @@ class DataViewer(object):
         """Returns average k value of current data."""
         if self.mask is None:
             raise ValueError("Mask not specified, you must first set mask.")
-        return self.kmap[self.mask].mean()
+        return self.kmap[self.graph_mask].mean()
     
     def set_mask(self, k, angle = 0, sector = 5, kstep = 1):
         """Sets k-mask for averaging,
-- 
2.43.0


From 614bbf58bdb1a935d6c01d0b8c136bcc99d8397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 52/52] fix: viewers use the k-map of previous data if the
 shape of new data is different

---
 cddm/viewer.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/cddm/viewer.py b/cddm/viewer.py
index 0dfa504..c024e28 100644
--- a/cddm/viewer.py
+++ b/cddm/viewer.py
@@ -609,6 +609,9 @@ class DataViewer(object):
     fig = None
     data = None
     mask = None
+    kisize = None
+    kjsize = None
+    kshape = None
     kmap = None
     anglemap = None
     indexmap = None
@@ -692,9 +695,7 @@ class DataViewer(object):
         data : ndarray
             Normalized data.
         """
-        self.kshape = data.shape[:-1]
-        if self.computed_mask is None:
-            self.kisize, self.kjsize = self.kshape
+        self._set_kshape(data.shape[:-1])
         self.data = data
         t =  np.asarray(t) if t is not None else np.arange(data.shape[-1])
         if len(t) != data.shape[-1]:
@@ -732,6 +733,17 @@ class DataViewer(object):
             raise ValueError("Mask not specified, you must first set mask.")
         return self.kmap[self.graph_mask].mean()
     
+    def _set_kshape(self, kshape):
+        """Sets shape of the k-space data. k-maps and masks depend on it."""
+        changed = self.kshape != kshape
+        self.kshape = kshape
+        if self.computed_mask is None:
+            self.kisize, self.kjsize = self.kshape
+        if changed:
+            self.kmap = None
+            if self.mask is not None:
+                self.set_mask(self.k, self.angle, self.sector, self.kstep)
+    
     def set_mask(self, k, angle = 0, sector = 5, kstep = 1):
         """Sets k-mask for averaging,
         
@@ -924,9 +936,7 @@ class CorrViewer(DataViewer):
         self.data = data
         self.background = background
         self.variance = variance
-        self.kshape = data[0].shape[:-1]
-        if self.computed_mask is None:
-            self.kisize, self.kjsize = self.kshape
+        self._set_kshape(data[0].shape[:-1])
         
     def _get_avg_data(self):
         data = normalize(self.data, self.background, self.variance, norm = self.norm, scale = self.scale, mask = self.half_mask)
@@ -1008,9 +1018,7 @@ class MultitauViewer(CorrViewer):
         self.data = data
         self.background = background
         self.variance = variance
-        self.kshape = data[0][0].shape[:-1]
-        if self.computed_mask is None:
-            self.kisize, self.kjsize = self.kshape
+        self._set_kshape(data[0][0].shape[:-1])
         
     def _get_avg_data(self):
         
-- 
2.43.0

