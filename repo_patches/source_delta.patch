From 6fd2e78cca91006ffa72ebf266947b23cc008f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 01/34] fix: honour the box order in the merged 2D and 3D FFTW
 and MKL executors

---
 include/heffte_backend_fftw.h | 30 ++++++++++++++++--------------
 include/heffte_backend_mkl.h  | 15 ++++++++-------
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index b501e8b..14438bf 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -230,7 +230,8 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -239,22 +240,22 @@ public:
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
@@ -594,7 +595,8 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
     //! \brief Construct a plan for batch 2D transforms, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -603,22 +605,22 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Construct a plan for a single 3D transform, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
diff --git a/include/heffte_backend_mkl.h b/include/heffte_backend_mkl.h
index cdbc32c..72957ec 100644
--- a/include/heffte_backend_mkl.h
+++ b/include/heffte_backend_mkl.h
@@ -195,7 +195,8 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count())
     {
         int odir1 = box.find_order(dir1);
@@ -205,23 +206,23 @@ public:
             stride = 1;
             dist = size * size2;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size)};
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size) * static_cast<MKL_LONG>(stride)};
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.size[1]) * static_cast<MKL_LONG>(box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.osize(1)) * static_cast<MKL_LONG>(box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
-- 
2.43.0


From 58fb24b61fde7a95c9beb6e2aa30cfe44176ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:28 +0000
Subject: [PATCH 02/34] fix: copy the input when the first executor is merged
 into a later one or missing

---
 src/heffte_compute_transform.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index 1f425fe..be28787 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -12,6 +12,24 @@
 
 namespace heffte {
 
+/*!
+ * \ingroup fft3d
+ * \brief Returns the number of entries that reach the first executor when shaper 0 is not active.
+ *
+ * The executors that come before the first active reshape work on the geometry of the input,
+ * some are missing since they have been merged into a 2-D or 3-D executor
+ * and all of them are missing when the rank holds no input.
+ */
+template<typename index>
+inline size_t count_input(std::array<std::unique_ptr<reshape3d_base<index>>, 4> const &shaper,
+                          std::array<executor_base*, 3> const &executor){
+    for(int i=0; i<3; i++){
+        if (i > 0 and shaper[i]) break;
+        if (executor[i] != nullptr) return static_cast<size_t>(executor[i]->box_size());
+    }
+    return 0;
+}
+
 template<typename location_tag, typename index, typename scalar_type>
 void compute_transform(typename backend::data_manipulator<location_tag>::stream_type stream,
                        int const batch_size,
@@ -57,8 +75,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         if (last == 0){
             shaper[0]->apply(batch_size, input, output, workspace);
         }else if (input != output){
-            int valid_executor = (executor[0] != nullptr) ? 0 : ((executor[1] != nullptr) ? 1 : 2);
-            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[valid_executor]->box_size(), output);
+            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * count_input(shaper, executor), output);
         }
         for(int i=0; i<3; i++)
             apply_fft(i, output);
@@ -72,8 +89,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         scalar_type *effective_input = output;
         if (input != output){
             add_trace name("copy");
-            if (executor[0] != nullptr)
-                backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
+            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * count_input(shaper, executor), temp_buffer);
             effective_input = temp_buffer;
         }
         for(int i=0; i<last; i++)
@@ -95,7 +111,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
             shaper[0]->apply(batch_size, input, temp_buffer, workspace);
         }else{
             add_trace name("copy");
-            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
+            backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * count_input(shaper, executor), temp_buffer);
         }
         active_shaper = 1;
     }else{
@@ -214,9 +230,7 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         shaper[0]->apply(batch_size, input, temp_buffer, workspace);
     }else{
         add_trace name("copy");
-        int valid_executor = (executor[0] != nullptr) ? 0 : ((executor[1] != nullptr) ? 1 : 2);
-        backend::data_manipulator<location_tag>::copy_n(stream, input,
-                                                        batch_size * executor[valid_executor]->box_size(), temp_buffer);
+        backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * count_input(shaper, executor), temp_buffer);
     }
 
     for(int i=0; i<2; i++){ // apply the two complex-to-complex ffts
-- 
2.43.0


From 6e3bbfe66c9343c94b6253a4ddecc39763070965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:28 +0000
Subject: [PATCH 03/34] fix: FFTW plans match the placement and the alignment
 of the data

---
 include/heffte_backend_fftw.h | 166 ++++++++++++++++++++--------------
 1 file changed, 100 insertions(+), 66 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index 14438bf..4851f2b 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -107,11 +107,12 @@ struct plan_fftw<std::complex<float>, dir>{
      * \param howmanyffts is the number of transforms in the batch
      * \param stride is the distance between entries of the same transform
      * \param dist is the distance between the first entries of consecutive sequences
+     * \param flags are the FFTW planning flags
      */
-    plan_fftw(int size, int howmanyffts, int stride, int dist) :
+    plan_fftw(int size, int howmanyffts, int stride, int dist, unsigned flags = FFTW_ESTIMATE) :
         plan(fftwf_plan_many_dft(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
                                                     nullptr, nullptr, stride, dist,
-                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags
                                 ))
         {}
     /*!
@@ -123,27 +124,28 @@ struct plan_fftw<std::complex<float>, dir>{
      * \param howmanyffts is the number of transforms in the batch
      * \param stride is the distance between entries of the same transform
      * \param dist is the distance between the first entries of consecutive sequences
+     * \param flags are the FFTW planning flags
      */
-    plan_fftw(int size1, int size2, std::array<int, 2> const &embed, int howmanyffts, int stride, int dist){
+    plan_fftw(int size1, int size2, std::array<int, 2> const &embed, int howmanyffts, int stride, int dist, unsigned flags = FFTW_ESTIMATE){
         std::array<int, 2> size = {size2, size1};
 
         if (embed[0] == 0 and embed[1] == 0){
             plan = fftwf_plan_many_dft(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
                                                     nullptr, nullptr, stride, dist,
-                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags
                                       );
         }else{
             plan = fftwf_plan_many_dft(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
                                                     nullptr, embed.data(), stride, dist,
-                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags
                                       );
         }
     }
     //! \brief Identical to the float-complex specialization.
-    plan_fftw(int size1, int size2, int size3){
+    plan_fftw(int size1, int size2, int size3, unsigned flags = FFTW_ESTIMATE){
         std::array<int, 3> size = {size3, size2, size1};
         plan = fftwf_plan_many_dft(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1,
-                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE);
+                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags);
     }
     //! \brief Destructor, deletes the plan.
     ~plan_fftw(){ fftwf_destroy_plan(plan); }
@@ -159,33 +161,33 @@ struct plan_fftw<std::complex<float>, dir>{
 template<direction dir>
 struct plan_fftw<std::complex<double>, dir>{
     //! \brief Identical to the float-complex specialization.
-    plan_fftw(int size, int howmanyffts, int stride, int dist) :
+    plan_fftw(int size, int howmanyffts, int stride, int dist, unsigned flags = FFTW_ESTIMATE) :
         plan(fftw_plan_many_dft(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
                                                    nullptr, nullptr, stride, dist,
-                                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags
                                ))
         {}
     //! \brief Identical to the float-complex specialization.
-    plan_fftw(int size1, int size2, std::array<int, 2> const &embed, int howmanyffts, int stride, int dist){
+    plan_fftw(int size1, int size2, std::array<int, 2> const &embed, int howmanyffts, int stride, int dist, unsigned flags = FFTW_ESTIMATE){
         std::array<int, 2> size = {size2, size1};
 
         if (embed[0] == 0 and embed[1] == 0){
             plan = fftw_plan_many_dft(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
                                                       nullptr, nullptr, stride, dist,
-                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags
                                      );
         }else{
             plan = fftw_plan_many_dft(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
                                                       nullptr, embed.data(), stride, dist,
-                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags
                                      );
         }
     }
     //! \brief Identical to the float-complex specialization.
-    plan_fftw(int size1, int size2, int size3){
+    plan_fftw(int size1, int size2, int size3, unsigned flags = FFTW_ESTIMATE){
         std::array<int, 3> size = {size3, size2, size1};
         plan = fftw_plan_many_dft(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1,
-                                  (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE);
+                                  (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags);
     }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftw_destroy_plan(plan); }
@@ -195,6 +197,27 @@ struct plan_fftw<std::complex<double>, dir>{
     fftw_plan plan;
 };
 
+/*!
+ * \ingroup hefftefftw
+ * \brief Holds a plan for aligned data (entry 0) and a plan for any data (entry 1), created on first use.
+ *
+ * The plans are created without the data arrays, i.e., assuming perfect alignment,
+ * but FFTW allows to use such plan only with data that has the same alignment.
+ * That does not hold for all user arrays, or for all entries of a batch, or for all blocks of a strided transform.
+ */
+template<typename scalar_type, direction dir>
+using plan_fftw_pair = std::array<std::unique_ptr<plan_fftw<scalar_type, dir>>, 2>;
+
+//! \brief Returns true if the data has the alignment assumed by FFTW, single precision.
+inline bool fftw_is_aligned(float const *data){ return (fftwf_alignment_of(const_cast<float*>(data)) == 0); }
+//! \brief Returns true if the data has the alignment assumed by FFTW, double precision.
+inline bool fftw_is_aligned(double const *data){ return (fftw_alignment_of(const_cast<double*>(data)) == 0); }
+//! \brief Returns true if the data has the alignment assumed by FFTW, complex case.
+template<typename scalar_type>
+inline bool fftw_is_aligned(std::complex<scalar_type> const *data){
+    return fftw_is_aligned(reinterpret_cast<scalar_type const*>(data));
+}
+
 /*!
  * \ingroup hefftefftw
  * \brief Wrapper around the FFTW3 API.
@@ -264,34 +287,30 @@ public:
 
     //! \brief Forward fft, float-complex case.
     void forward(std::complex<float> data[], std::complex<float>*) const override{
-        make_plan(cforward);
         for(int i=0; i<blocks; i++){
             fftwf_complex* block_data = reinterpret_cast<fftwf_complex*>(data + i * block_stride);
-            fftwf_execute_dft(*cforward, block_data, block_data);
+            fftwf_execute_dft(get_plan(cforward, fftw_is_aligned(data + i * block_stride)), block_data, block_data);
         }
     }
     //! \brief Backward fft, float-complex case.
     void backward(std::complex<float> data[], std::complex<float>*) const override{
-        make_plan(cbackward);
         for(int i=0; i<blocks; i++){
             fftwf_complex* block_data = reinterpret_cast<fftwf_complex*>(data + i * block_stride);
-            fftwf_execute_dft(*cbackward, block_data, block_data);
+            fftwf_execute_dft(get_plan(cbackward, fftw_is_aligned(data + i * block_stride)), block_data, block_data);
         }
     }
     //! \brief Forward fft, double-complex case.
     void forward(std::complex<double> data[], std::complex<double>*) const override{
-        make_plan(zforward);
         for(int i=0; i<blocks; i++){
             fftw_complex* block_data = reinterpret_cast<fftw_complex*>(data + i * block_stride);
-            fftw_execute_dft(*zforward, block_data, block_data);
+            fftw_execute_dft(get_plan(zforward, fftw_is_aligned(data + i * block_stride)), block_data, block_data);
         }
     }
     //! \brief Backward fft, double-complex case.
     void backward(std::complex<double> data[], std::complex<double>*) const override{
-        make_plan(zbackward);
         for(int i=0; i<blocks; i++){
             fftw_complex* block_data = reinterpret_cast<fftw_complex*>(data + i * block_stride);
-            fftw_execute_dft(*zbackward, block_data, block_data);
+            fftw_execute_dft(get_plan(zbackward, fftw_is_aligned(data + i * block_stride)), block_data, block_data);
         }
     }
 
@@ -322,25 +341,28 @@ public:
     size_t workspace_size() const override{ return 0; }
 
 private:
-    //! \brief Helper template to create the plan.
+    //! \brief Helper template to create the plan, returns the plan that can work with the alignment of the data.
     template<typename scalar_type, direction dir>
-    void make_plan(std::unique_ptr<plan_fftw<scalar_type, dir>> &plan) const{
+    plan_fftw<scalar_type, dir> const& get_plan(plan_fftw_pair<scalar_type, dir> &plans, bool aligned) const{
+        std::unique_ptr<plan_fftw<scalar_type, dir>> &plan = plans[(aligned) ? 0 : 1];
         if (not plan){
+            unsigned const flags = (aligned) ? FFTW_ESTIMATE : (FFTW_ESTIMATE | FFTW_UNALIGNED);
             if (dist == 0)
-                plan = std::unique_ptr<plan_fftw<scalar_type, dir>>(new plan_fftw<scalar_type, dir>(size, size2, howmanyffts));
+                plan = std::unique_ptr<plan_fftw<scalar_type, dir>>(new plan_fftw<scalar_type, dir>(size, size2, howmanyffts, flags));
             else if (size2 == 0)
-                plan = std::unique_ptr<plan_fftw<scalar_type, dir>>(new plan_fftw<scalar_type, dir>(size, howmanyffts, stride, dist));
+                plan = std::unique_ptr<plan_fftw<scalar_type, dir>>(new plan_fftw<scalar_type, dir>(size, howmanyffts, stride, dist, flags));
             else
-                plan = std::unique_ptr<plan_fftw<scalar_type, dir>>(new plan_fftw<scalar_type, dir>(size, size2, embed, howmanyffts, stride, dist));
+                plan = std::unique_ptr<plan_fftw<scalar_type, dir>>(new plan_fftw<scalar_type, dir>(size, size2, embed, howmanyffts, stride, dist, flags));
         }
+        return *plan;
     }
 
     int size, size2, howmanyffts, stride, dist, blocks, block_stride, total_size;
     std::array<int, 2> embed;
-    mutable std::unique_ptr<plan_fftw<std::complex<float>, direction::forward>> cforward;
-    mutable std::unique_ptr<plan_fftw<std::complex<float>, direction::backward>> cbackward;
-    mutable std::unique_ptr<plan_fftw<std::complex<double>, direction::forward>> zforward;
-    mutable std::unique_ptr<plan_fftw<std::complex<double>, direction::backward>> zbackward;
+    mutable plan_fftw_pair<std::complex<float>, direction::forward> cforward;
+    mutable plan_fftw_pair<std::complex<float>, direction::backward> cbackward;
+    mutable plan_fftw_pair<std::complex<double>, direction::forward> zforward;
+    mutable plan_fftw_pair<std::complex<double>, direction::backward> zbackward;
 };
 
 /*!
@@ -358,17 +380,21 @@ struct plan_fftw<float, dir>{
      * \param rdist is the distance between the first entries of consecutive sequences in the real sequences
      * \param cdist is the distance between the first entries of consecutive sequences in the complex sequences
      */
-    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
-        plan((dir == direction::forward) ?
-             fftwf_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
-                                                   FFTW_ESTIMATE
+    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist, unsigned flags = FFTW_ESTIMATE){
+        // the transform is out-of-place and FFTW plans that way only if the two arrays are different,
+        // the in-place plan does not exist for all sizes, the arrays are not accessed by FFTW_ESTIMATE
+        alignas(64) float rdata[2];
+        alignas(64) fftwf_complex cdata[1];
+        plan = (dir == direction::forward) ?
+             fftwf_plan_many_dft_r2c(1, &size, howmanyffts, rdata, nullptr, stride, rdist,
+                                                   cdata, nullptr, stride, cdist,
+                                                   flags
                                    ) :
-             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
-                                                   nullptr, nullptr, stride, rdist,
-                                                   FFTW_ESTIMATE
-                                   ))
-        {}
+             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, cdata, nullptr, stride, cdist,
+                                                   rdata, nullptr, stride, rdist,
+                                                   flags
+                                   );
+    }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftwf_destroy_plan(plan); }
     //! \brief Identical to the float-complex specialization.
@@ -383,17 +409,21 @@ struct plan_fftw<float, dir>{
 template<direction dir>
 struct plan_fftw<double, dir>{
     //! \brief Identical to the float-complex specialization.
-    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
-        plan((dir == direction::forward) ?
-             fftw_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
-                                                   FFTW_ESTIMATE
+    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist, unsigned flags = FFTW_ESTIMATE){
+        // the transform is out-of-place and FFTW plans that way only if the two arrays are different,
+        // the in-place plan does not exist for all sizes, the arrays are not accessed by FFTW_ESTIMATE
+        alignas(64) double rdata[2];
+        alignas(64) fftw_complex cdata[1];
+        plan = (dir == direction::forward) ?
+             fftw_plan_many_dft_r2c(1, &size, howmanyffts, rdata, nullptr, stride, rdist,
+                                                   cdata, nullptr, stride, cdist,
+                                                   flags
                                    ) :
-             fftw_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
-                                                   nullptr, nullptr, stride, rdist,
-                                                   FFTW_ESTIMATE
-                                   ))
-        {}
+             fftw_plan_many_dft_c2r(1, &size, howmanyffts, cdata, nullptr, stride, cdist,
+                                                   rdata, nullptr, stride, rdist,
+                                                   flags
+                                   );
+    }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftw_destroy_plan(plan); }
     //! \brief Identical to the float-complex specialization.
@@ -437,36 +467,36 @@ public:
 
     //! \brief Forward transform, single precision.
     void forward(float const indata[], std::complex<float> outdata[], std::complex<float>*) const override{
-        make_plan(sforward);
         for(int i=0; i<blocks; i++){
             float *rdata = const_cast<float*>(indata + i * rblock_stride);
             fftwf_complex* cdata = reinterpret_cast<fftwf_complex*>(outdata + i * cblock_stride);
-            fftwf_execute_dft_r2c(*sforward, rdata, cdata);
+            bool const aligned = fftw_is_aligned(rdata) and fftw_is_aligned(outdata + i * cblock_stride);
+            fftwf_execute_dft_r2c(get_plan(sforward, aligned), rdata, cdata);
         }
     }
     //! \brief Backward transform, single precision.
     void backward(std::complex<float> indata[], float outdata[], std::complex<float>*) const override{
-        make_plan(sbackward);
         for(int i=0; i<blocks; i++){
             fftwf_complex* cdata = const_cast<fftwf_complex*>(reinterpret_cast<fftwf_complex const*>(indata + i * cblock_stride));
-            fftwf_execute_dft_c2r(*sbackward, cdata, outdata + i * rblock_stride);
+            bool const aligned = fftw_is_aligned(indata + i * cblock_stride) and fftw_is_aligned(outdata + i * rblock_stride);
+            fftwf_execute_dft_c2r(get_plan(sbackward, aligned), cdata, outdata + i * rblock_stride);
         }
     }
     //! \brief Forward transform, double precision.
     void forward(double const indata[], std::complex<double> outdata[], std::complex<double>*) const override{
-        make_plan(dforward);
         for(int i=0; i<blocks; i++){
             double *rdata = const_cast<double*>(indata + i * rblock_stride);
             fftw_complex* cdata = reinterpret_cast<fftw_complex*>(outdata + i * cblock_stride);
-            fftw_execute_dft_r2c(*dforward, rdata, cdata);
+            bool const aligned = fftw_is_aligned(rdata) and fftw_is_aligned(outdata + i * cblock_stride);
+            fftw_execute_dft_r2c(get_plan(dforward, aligned), rdata, cdata);
         }
     }
     //! \brief Backward transform, double precision.
     void backward(std::complex<double> indata[], double outdata[], std::complex<double>*) const override{
-        make_plan(dbackward);
         for(int i=0; i<blocks; i++){
             fftw_complex* cdata = const_cast<fftw_complex*>(reinterpret_cast<fftw_complex const*>(indata + i * cblock_stride));
-            fftw_execute_dft_c2r(*dbackward, cdata, outdata + i * rblock_stride);
+            bool const aligned = fftw_is_aligned(indata + i * cblock_stride) and fftw_is_aligned(outdata + i * rblock_stride);
+            fftw_execute_dft_c2r(get_plan(dbackward, aligned), cdata, outdata + i * rblock_stride);
         }
     }
 
@@ -478,18 +508,22 @@ public:
     size_t workspace_size() const override{ return 0; }
 
 private:
-    //! \brief Helper template to initialize the plan.
+    //! \brief Helper template to initialize the plan, returns the plan that can work with the alignment of the data.
     template<typename scalar_type, direction dir>
-    void make_plan(std::unique_ptr<plan_fftw<scalar_type, dir>> &plan) const{
-        if (!plan) plan = std::unique_ptr<plan_fftw<scalar_type, dir>>(new plan_fftw<scalar_type, dir>(size, howmanyffts, stride, rdist, cdist));
+    plan_fftw<scalar_type, dir> const& get_plan(plan_fftw_pair<scalar_type, dir> &plans, bool aligned) const{
+        std::unique_ptr<plan_fftw<scalar_type, dir>> &plan = plans[(aligned) ? 0 : 1];
+        if (not plan)
+            plan = std::unique_ptr<plan_fftw<scalar_type, dir>>(new plan_fftw<scalar_type, dir>(size, howmanyffts, stride, rdist, cdist,
+                                                                (aligned) ? FFTW_ESTIMATE : (FFTW_ESTIMATE | FFTW_UNALIGNED)));
+        return *plan;
     }
 
     int size, howmanyffts, stride, blocks;
     int rdist, cdist, rblock_stride, cblock_stride, rsize, csize;
-    mutable std::unique_ptr<plan_fftw<float, direction::forward>> sforward;
-    mutable std::unique_ptr<plan_fftw<double, direction::forward>> dforward;
-    mutable std::unique_ptr<plan_fftw<float, direction::backward>> sbackward;
-    mutable std::unique_ptr<plan_fftw<double, direction::backward>> dbackward;
+    mutable plan_fftw_pair<float, direction::forward> sforward;
+    mutable plan_fftw_pair<double, direction::forward> dforward;
+    mutable plan_fftw_pair<float, direction::backward> sbackward;
+    mutable plan_fftw_pair<double, direction::backward> dbackward;
 };
 
 /*!
-- 
2.43.0


From c629a5a08e39cc4b4ca8faa43dd4e1aea6800870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:28 +0000
Subject: [PATCH 04/34] fix: batch offsets of the complex stages of a
 real-to-complex transform

---
 src/heffte_compute_transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index be28787..95e4cb4 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -171,8 +171,8 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         for(int j=0; j<batch_size; j++){
             if (executor[0] != nullptr) executor[0]->forward(effective_input + j * executor[0]->box_size(),
                                                              output + j * executor[0]->complex_size(), executor_workspace);
-            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[0]->box_size(), executor_workspace);
-            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[0]->box_size(), executor_workspace);
+            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[1]->box_size(), executor_workspace);
+            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[2]->box_size(), executor_workspace);
         }
         return;
     }
-- 
2.43.0


From bd41c02da340df378baa91b3b8a4ffc8819eec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 05/34] fix: heffte_set_default_options() sets use_gpu_aware

---
 src/heffte_c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 75bf9e1..4a9c72c 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -223,6 +223,7 @@ int heffte_set_default_options(int backend, heffte_plan_options *options){
     options->use_reorder = (opts.use_reorder) ? 1 : 0;
     options->algorithm = Heffte_RESHAPE_ALGORITHM_ALLTOALLV;
     options->use_pencils = (opts.use_pencils) ? 1 : 0;
+    options->use_gpu_aware = (opts.use_gpu_aware) ? 1 : 0;
     return Heffte_SUCCESS;
 }
 
-- 
2.43.0


From 74d09fd1a629727ee87e3064bf58145edc1fe622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 06/34] fix: C plan creation returns 2 on every exception and
 resets the handle

---
 src/heffte_c.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 4a9c72c..bed7230 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -244,9 +244,9 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
         heffte_set_default_options(backend, &c_opts);
         opts = &c_opts;
     }
-    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
     try{
+    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d<heffte::backend::stock>(inbox, outbox, comm, cpp_opts));
     }
@@ -271,9 +271,9 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
@@ -298,9 +298,9 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
         heffte_set_default_options(backend, &c_opts);
         opts = &c_opts;
     }
-    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
     try{
+    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d_r2c<heffte::backend::stock>(inbox, outbox, r2c_direction, comm, cpp_opts));
     }
@@ -325,9 +325,9 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
-- 
2.43.0


From a115082e6f806819236ce97a2fc0cff07671fb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:17 +0000
Subject: [PATCH 07/34] fix: check the size of the container in the real
 backward transforms

---
 include/heffte_fft3d.h     | 2 ++
 include/heffte_fft3d_r2c.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index 95d22ff..c771ba7 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -536,6 +536,8 @@ public:
     real_buffer_container<scalar_type> backward_real(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(not backend::uses_fft_types<backend_tag>::value or is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename transform_real_type<scalar_type, backend_tag>::type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index e95ef47..e450e65 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -286,6 +286,8 @@ public:
     real_buffer_container<scalar_type> backward(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename define_standard_type<scalar_type>::type::value_type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
-- 
2.43.0


From 056fa7ad86162c863ddb3f8e6f8ceb233bdc550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:27 +0000
Subject: [PATCH 08/34] fix: stock allocator throws std::bad_alloc when the
 allocation fails

---
 include/stock_fft/heffte_stock_allocator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stock_fft/heffte_stock_allocator.h b/include/stock_fft/heffte_stock_allocator.h
index 6123513..5878797 100644
--- a/include/stock_fft/heffte_stock_allocator.h
+++ b/include/stock_fft/heffte_stock_allocator.h
@@ -2,6 +2,7 @@
 #define HEFFTE_STOCK_ALLOCATOR_H
 
 #include <memory>
+#include <new>
 #include <stdlib.h>
 #include <vector>
 
@@ -41,10 +42,12 @@ class complex_allocator_t {
         //! \brief Define allocation for complex type
         pointer allocate(size_type n, void const* = nullptr) {
             #ifdef Heffte_ENABLE_AVX
-            return reinterpret_cast<pointer>(aligned_alloc(alignof(F), n*sizeof(F)));
+            void *result = aligned_alloc(alignof(F), n*sizeof(F));
             #else
-            return reinterpret_cast<pointer>(malloc(n*sizeof(F)));
+            void *result = malloc(n*sizeof(F));
             #endif
+            if (result == nullptr and n > 0) throw std::bad_alloc();
+            return reinterpret_cast<pointer>(result);
         }
         //! \brief Define deallocation for complex type
         inline void deallocate(pointer p, size_type) {
-- 
2.43.0


From cc78bd68037c489f6f37ee088bed382db1e066a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:27 +0000
Subject: [PATCH 09/34] fix: destructors of the MKL plans do not throw

---
 include/heffte_backend_mkl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/heffte_backend_mkl.h b/include/heffte_backend_mkl.h
index 72957ec..b771534 100644
--- a/include/heffte_backend_mkl.h
+++ b/include/heffte_backend_mkl.h
@@ -153,7 +153,7 @@ struct plan_mkl{
     }
 
     //! \brief Destructor, deletes the plan.
-    ~plan_mkl(){ check_error( DftiFreeDescriptor(&plan), "mkl delete descriptor"); }
+    ~plan_mkl(){ DftiFreeDescriptor(&plan); }
     //! \brief Custom conversion to the MKL plan.
     operator DFTI_DESCRIPTOR_HANDLE() const{ return plan; }
     //! \brief The MKL opaque structure (pointer to struct).
@@ -349,7 +349,7 @@ struct plan_mkl_r2c{
 
 
     //! \brief Identical to the float-complex specialization.
-    ~plan_mkl_r2c(){ check_error( DftiFreeDescriptor(&plan), "mkl free r2c"); }
+    ~plan_mkl_r2c(){ DftiFreeDescriptor(&plan); }
     //! \brief Identical to the float-complex specialization.
     operator DFTI_DESCRIPTOR_HANDLE() const{ return plan; }
     //! \brief Identical to the float-complex specialization.
-- 
2.43.0


From 4465f26c5c0a8373719e628eb569f56867e663db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:35 +0000
Subject: [PATCH 10/34] fix: a trace event that cannot be stored is dropped,
 the destructor does not throw

---
 include/heffte_trace.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/heffte_trace.h b/include/heffte_trace.h
index a9b1782..4610cce 100644
--- a/include/heffte_trace.h
+++ b/include/heffte_trace.h
@@ -87,7 +87,9 @@ namespace heffte {
         //! \brief Saves a trace.
         ~add_trace(){
             double duration = MPI_Wtime() - start_time;
-            event_log.push_back({std::move(name), start_time, duration});
+            try{
+                event_log.push_back({std::move(name), start_time, duration});
+            }catch(std::bad_alloc const&){} // destructors cannot throw, drop the event
         }
         //! \brief Defines the name of a trace.
         std::string name;
-- 
2.43.0


From c0da7c6e9de44646bdcc6d4c91bbda31c1d81b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:57 +0000
Subject: [PATCH 11/34] fix: free the MKL descriptor when the construction of a
 plan fails

---
 include/heffte_backend_mkl.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/heffte_backend_mkl.h b/include/heffte_backend_mkl.h
index b771534..d8bea8d 100644
--- a/include/heffte_backend_mkl.h
+++ b/include/heffte_backend_mkl.h
@@ -90,7 +90,7 @@ struct plan_mkl{
      * \param stride is the distance between entries of the same transform
      * \param dist is the distance between the first entries of consecutive sequences
      */
-    plan_mkl(int size, int howmanyffts, int stride, int dist) : plan(nullptr){
+    plan_mkl(int size, int howmanyffts, int stride, int dist) : plan_mkl(){
         static_assert(std::is_same<scalar_type, std::complex<float>>::value
                       or std::is_same<scalar_type, std::complex<double>>::value,
                       "plan_mkl requires std::complex scalar_type with float or double, see plan_mkl_r2c for real types");
@@ -116,7 +116,7 @@ struct plan_mkl{
      * \param howmanyffts is the number of transforms in the batch
      * \param dist is the distance between the first entries of consecutive sequences
      */
-    plan_mkl(size_t size1, size_t size2, std::array<MKL_LONG, 2> const &embed, size_t howmanyffts, size_t dist) : plan(nullptr){
+    plan_mkl(size_t size1, size_t size2, std::array<MKL_LONG, 2> const &embed, size_t howmanyffts, size_t dist) : plan_mkl(){
         static_assert(std::is_same<scalar_type, std::complex<float>>::value
                       or std::is_same<scalar_type, std::complex<double>>::value,
                       "plan_mkl requires std::complex scalar_type with float or double, see plan_mkl_r2c for real types");
@@ -142,7 +142,7 @@ struct plan_mkl{
      * \param size2 is the number of entries in a 3-D transform, direction 2
      * \param size3 is the number of entries in a 3-D transform, direction 3
      */
-    plan_mkl(int size1, int size2, int size3){
+    plan_mkl(int size1, int size2, int size3) : plan_mkl(){
         MKL_LONG size[] = {static_cast<MKL_LONG>(size3), static_cast<MKL_LONG>(size2), static_cast<MKL_LONG>(size1)};
         check_error( DftiCreateDescriptor(&plan, (std::is_same<scalar_type, std::complex<float>>::value) ?
                                                   DFTI_SINGLE : DFTI_DOUBLE,
@@ -153,11 +153,15 @@ struct plan_mkl{
     }
 
     //! \brief Destructor, deletes the plan.
-    ~plan_mkl(){ DftiFreeDescriptor(&plan); }
+    ~plan_mkl(){ if (plan != nullptr) DftiFreeDescriptor(&plan); }
     //! \brief Custom conversion to the MKL plan.
     operator DFTI_DESCRIPTOR_HANDLE() const{ return plan; }
     //! \brief The MKL opaque structure (pointer to struct).
     DFTI_DESCRIPTOR_HANDLE plan;
+
+private:
+    //! \brief Delegate, the destructor will free the descriptor when another constructor throws.
+    plan_mkl() : plan(nullptr){}
 };
 
 /*!
@@ -323,7 +327,7 @@ struct plan_mkl_r2c{
      * \param rdist is the distance between successive 1-D transforms in the real array
      * \param cdist is the distance between successive 1-D transforms in the complex array
      */
-    plan_mkl_r2c(int size, int howmanyffts, int stride, int rdist, int cdist) : plan(nullptr){
+    plan_mkl_r2c(int size, int howmanyffts, int stride, int rdist, int cdist) : plan_mkl_r2c(){
 
         static_assert(std::is_same<scalar_type, float>::value or std::is_same<scalar_type, double>::value,
                       "plan_mkl_r2c requires scalar_type with float or double, see plan_mkl for complex types");
@@ -349,11 +353,15 @@ struct plan_mkl_r2c{
 
 
     //! \brief Identical to the float-complex specialization.
-    ~plan_mkl_r2c(){ DftiFreeDescriptor(&plan); }
+    ~plan_mkl_r2c(){ if (plan != nullptr) DftiFreeDescriptor(&plan); }
     //! \brief Identical to the float-complex specialization.
     operator DFTI_DESCRIPTOR_HANDLE() const{ return plan; }
     //! \brief Identical to the float-complex specialization.
     DFTI_DESCRIPTOR_HANDLE plan;
+
+private:
+    //! \brief Delegate, the destructor will free the descriptor when another constructor throws.
+    plan_mkl_r2c() : plan(nullptr){}
 };
 
 /*!
-- 
2.43.0


From 9dea1a9826b93439fcceebd3c794a85513060676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:57 +0000
Subject: [PATCH 12/34] fix: proc_setup_min_surface considers every
 factorization of the ranks

---
 include/heffte_geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index e030715..d9ff603 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -668,7 +668,7 @@ inline std::array<int, 3> proc_setup_min_surface(box3d<index> const world, int n
         if (num_procs % i == 0){
             int const j_max = std::min((index)(num_procs / i), all_indexes[1]);
             for(int j=1; j<=j_max; j++){
-                if (j_max % j == 0){
+                if ((num_procs / i) % j == 0){
                     int const k = num_procs / (i * j);
                     if (k <= all_indexes[2]){
                         if (i * j * k == num_procs) {
-- 
2.43.0


From b2f8d1c35721a19321362f3a76687672db61280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:38 +0000
Subject: [PATCH 13/34] fix: maximize_overlap counts overlaps beyond the range
 of int

---
 include/heffte_geometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index d9ff603..8889b25 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -506,10 +506,10 @@ inline std::vector<box3d<index>> maximize_overlap(std::vector<box3d<index>> cons
         }
         // for each box in the result, find the box among the new_boxes
         // that has not been taken and has the largest overlap with the corresponding old box
-        int max_overlap = -1;
+        long long max_overlap = -1;
         size_t max_index = new_boxes.size();
         for(size_t j=0; j<new_boxes.size(); j++){
-            int overlap = old_boxes[i].collide(new_boxes[j]).count();
+            long long overlap = old_boxes[i].collide(new_boxes[j]).count();
             if (not taken[j] and overlap > max_overlap){
                 max_overlap = overlap;
                 max_index = j;
-- 
2.43.0


From c0c0093b66b3f90ae737804210343fcb2f59c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:24 +0000
Subject: [PATCH 14/34] fix: point-to-point reshapes use their own communicator

---
 include/heffte_reshape3d.h |  2 +-
 include/heffte_utils.h     | 12 ++++++++++++
 src/heffte_reshape3d.cpp   |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/heffte_reshape3d.h b/include/heffte_reshape3d.h
index 3a0d4cb..0ea1654 100644
--- a/include/heffte_reshape3d.h
+++ b/include/heffte_reshape3d.h
@@ -341,7 +341,7 @@ template<typename location_tag, template<typename device> class packer, typename
 class reshape3d_pointtopoint : public reshape3d_base<index>, public backend::device_instance<location_tag>{
 public:
     //! \brief Destructor, frees the comm generated by the constructor.
-    ~reshape3d_pointtopoint() = default;
+    ~reshape3d_pointtopoint(){ mpi::comm_free(comm); }
     //! \brief Factory method, use to construct instances of the class.
     template<typename b, template<typename d> class p, typename i> friend std::unique_ptr<reshape3d_pointtopoint<b, p, i>>
     make_reshape3d_pointtopoint(typename backend::device_instance<b>::stream_type, std::vector<box3d<i>> const&, std::vector<box3d<i>> const&, reshape_algorithm, bool, MPI_Comm const);
diff --git a/include/heffte_utils.h b/include/heffte_utils.h
index 71e6f6f..0d82414 100644
--- a/include/heffte_utils.h
+++ b/include/heffte_utils.h
@@ -166,6 +166,18 @@ inline MPI_Comm new_comm_from_group(std::vector<int> const &ranks, MPI_Comm cons
     return result;
 }
 
+/*!
+ * \ingroup hefftempi
+ * \brief Duplicates the communicator, messages on the result cannot be matched by messages on \b comm.
+ *
+ * Uses MPI_Comm_dup().
+ */
+inline MPI_Comm comm_dup(MPI_Comm const comm){
+    MPI_Comm result;
+    MPI_Comm_dup(comm, &result);
+    return result;
+}
+
 /*!
  * \ingroup hefftempi
  * \brief Calls free on the MPI comm.
diff --git a/src/heffte_reshape3d.cpp b/src/heffte_reshape3d.cpp
index 5f39b89..91c2add 100644
--- a/src/heffte_reshape3d.cpp
+++ b/src/heffte_reshape3d.cpp
@@ -760,7 +760,7 @@ make_reshape3d_pointtopoint(typename backend::device_instance<location_tag>::str
             recv_loc.push_back(recv_loc.back() + recv_size[i]);
 
     return std::unique_ptr<reshape3d_pointtopoint<location_tag, packer, index>>(new reshape3d_pointtopoint<location_tag, packer, index>(
-        stream, inbox.count(), outbox.count(), algorithm, uses_gpu_aware, comm,
+        stream, inbox.count(), outbox.count(), algorithm, uses_gpu_aware, mpi::comm_dup(comm),
         std::move(send_offset), std::move(send_size), std::move(send_proc),
         std::move(recv_offset), std::move(recv_size), std::move(recv_proc),
         std::move(recv_loc),
-- 
2.43.0


From 54d3843071ae1deef9bada8372c5bd1c73693571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 15/34] fix: report the errors of the MKL transforms

---
 include/heffte_backend_mkl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/heffte_backend_mkl.h b/include/heffte_backend_mkl.h
index d8bea8d..3b1cd95 100644
--- a/include/heffte_backend_mkl.h
+++ b/include/heffte_backend_mkl.h
@@ -238,7 +238,7 @@ public:
         make_plan(cplan);
         for(int i=0; i<blocks; i++){
             float _Complex* block_data = reinterpret_cast<float _Complex*>(data + i * block_stride);
-            DftiComputeForward(*cplan, block_data);
+            check_error( DftiComputeForward(*cplan, block_data), "mkl compute forward" );
         }
     }
     //! \brief Backward fft, float-complex case.
@@ -246,7 +246,7 @@ public:
         make_plan(cplan);
         for(int i=0; i<blocks; i++){
             float _Complex* block_data = reinterpret_cast<float _Complex*>(data + i * block_stride);
-            DftiComputeBackward(*cplan, block_data);
+            check_error( DftiComputeBackward(*cplan, block_data), "mkl compute backward" );
         }
     }
     //! \brief Forward fft, double-complex case.
@@ -254,7 +254,7 @@ public:
         make_plan(zplan);
         for(int i=0; i<blocks; i++){
             double _Complex* block_data = reinterpret_cast<double _Complex*>(data + i * block_stride);
-            DftiComputeForward(*zplan, block_data);
+            check_error( DftiComputeForward(*zplan, block_data), "mkl compute forward" );
         }
     }
     //! \brief Backward fft, double-complex case.
@@ -262,7 +262,7 @@ public:
         make_plan(zplan);
         for(int i=0; i<blocks; i++){
             double _Complex* block_data = reinterpret_cast<double _Complex*>(data + i * block_stride);
-            DftiComputeBackward(*zplan, block_data);
+            check_error( DftiComputeBackward(*zplan, block_data), "mkl compute backward" );
         }
     }
 
@@ -403,7 +403,7 @@ public:
         for(int i=0; i<blocks; i++){
             float *rdata = const_cast<float*>(indata + i * rblock_stride);
             float _Complex* cdata = reinterpret_cast<float _Complex*>(outdata + i * cblock_stride);
-            DftiComputeForward(*sforward, rdata, cdata);
+            check_error( DftiComputeForward(*sforward, rdata, cdata), "mkl compute forward" );
         }
     }
     //! \brief Backward transform, single precision.
@@ -411,7 +411,7 @@ public:
         make_plan(sbackward);
         for(int i=0; i<blocks; i++){
             float _Complex* cdata = const_cast<float _Complex*>(reinterpret_cast<float _Complex const*>(indata + i * cblock_stride));
-            DftiComputeBackward(*sbackward, cdata, outdata + i * rblock_stride);
+            check_error( DftiComputeBackward(*sbackward, cdata, outdata + i * rblock_stride), "mkl compute backward" );
         }
     }
     //! \brief Forward transform, double precision.
@@ -420,7 +420,7 @@ public:
         for(int i=0; i<blocks; i++){
             double *rdata = const_cast<double*>(indata + i * rblock_stride);
             double _Complex* cdata = reinterpret_cast<double _Complex*>(outdata + i * cblock_stride);
-            DftiComputeForward(*dforward, rdata, cdata);
+            check_error( DftiComputeForward(*dforward, rdata, cdata), "mkl compute forward" );
         }
     }
     //! \brief Backward transform, double precision.
@@ -428,7 +428,7 @@ public:
         make_plan(dbackward);
         for(int i=0; i<blocks; i++){
             double _Complex* cdata = const_cast<double _Complex*>(reinterpret_cast<double _Complex const*>(indata + i * cblock_stride));
-            DftiComputeBackward(*dbackward, cdata, outdata + i * rblock_stride);
+            check_error( DftiComputeBackward(*dbackward, cdata, outdata + i * rblock_stride), "mkl compute backward" );
         }
     }
 
-- 
2.43.0


From 6051076e95a4aa43aabb67247da9f57ed429fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 16/34] fix: throw when FFTW cannot create the plan

---
 include/heffte_backend_fftw.h | 65 ++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index 4851f2b..7ece4a0 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -92,6 +92,17 @@ template<> struct is_zcomplex<fftw_complex> : std::true_type{};
  */
 template<typename, direction> struct plan_fftw{};
 
+/*!
+ * \ingroup hefftefftw
+ * \brief Returns the plan, throws if FFTW3 could not create it, i.e., the plan is null.
+ */
+template<typename plan_type>
+inline plan_type check_fftw_plan(plan_type plan){
+    if (plan == nullptr)
+        throw std::runtime_error("FFTW3 could not create the plan for the transform");
+    return plan;
+}
+
 /*!
  * \ingroup hefftefftw
  * \brief Plan for the single precision complex transform.
@@ -110,10 +121,10 @@ struct plan_fftw<std::complex<float>, dir>{
      * \param flags are the FFTW planning flags
      */
     plan_fftw(int size, int howmanyffts, int stride, int dist, unsigned flags = FFTW_ESTIMATE) :
-        plan(fftwf_plan_many_dft(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
+        plan(check_fftw_plan(fftwf_plan_many_dft(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
                                                     nullptr, nullptr, stride, dist,
                                                     (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags
-                                ))
+                                )))
         {}
     /*!
      * \brief Constructor, takes inputs identical to fftwf_plan_many_dft().
@@ -130,22 +141,22 @@ struct plan_fftw<std::complex<float>, dir>{
         std::array<int, 2> size = {size2, size1};
 
         if (embed[0] == 0 and embed[1] == 0){
-            plan = fftwf_plan_many_dft(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
+            plan = check_fftw_plan(fftwf_plan_many_dft(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
                                                     nullptr, nullptr, stride, dist,
                                                     (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags
-                                      );
+                                      ));
         }else{
-            plan = fftwf_plan_many_dft(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
+            plan = check_fftw_plan(fftwf_plan_many_dft(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
                                                     nullptr, embed.data(), stride, dist,
                                                     (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags
-                                      );
+                                      ));
         }
     }
     //! \brief Identical to the float-complex specialization.
     plan_fftw(int size1, int size2, int size3, unsigned flags = FFTW_ESTIMATE){
         std::array<int, 3> size = {size3, size2, size1};
-        plan = fftwf_plan_many_dft(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1,
-                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags);
+        plan = check_fftw_plan(fftwf_plan_many_dft(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1,
+                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags));
     }
     //! \brief Destructor, deletes the plan.
     ~plan_fftw(){ fftwf_destroy_plan(plan); }
@@ -162,32 +173,32 @@ template<direction dir>
 struct plan_fftw<std::complex<double>, dir>{
     //! \brief Identical to the float-complex specialization.
     plan_fftw(int size, int howmanyffts, int stride, int dist, unsigned flags = FFTW_ESTIMATE) :
-        plan(fftw_plan_many_dft(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
+        plan(check_fftw_plan(fftw_plan_many_dft(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
                                                    nullptr, nullptr, stride, dist,
                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags
-                               ))
+                               )))
         {}
     //! \brief Identical to the float-complex specialization.
     plan_fftw(int size1, int size2, std::array<int, 2> const &embed, int howmanyffts, int stride, int dist, unsigned flags = FFTW_ESTIMATE){
         std::array<int, 2> size = {size2, size1};
 
         if (embed[0] == 0 and embed[1] == 0){
-            plan = fftw_plan_many_dft(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
+            plan = check_fftw_plan(fftw_plan_many_dft(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
                                                       nullptr, nullptr, stride, dist,
                                                       (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags
-                                     );
+                                     ));
         }else{
-            plan = fftw_plan_many_dft(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
+            plan = check_fftw_plan(fftw_plan_many_dft(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
                                                       nullptr, embed.data(), stride, dist,
                                                       (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags
-                                     );
+                                     ));
         }
     }
     //! \brief Identical to the float-complex specialization.
     plan_fftw(int size1, int size2, int size3, unsigned flags = FFTW_ESTIMATE){
         std::array<int, 3> size = {size3, size2, size1};
-        plan = fftw_plan_many_dft(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1,
-                                  (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags);
+        plan = check_fftw_plan(fftw_plan_many_dft(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1,
+                                  (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, flags));
     }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftw_destroy_plan(plan); }
@@ -385,7 +396,7 @@ struct plan_fftw<float, dir>{
         // the in-place plan does not exist for all sizes, the arrays are not accessed by FFTW_ESTIMATE
         alignas(64) float rdata[2];
         alignas(64) fftwf_complex cdata[1];
-        plan = (dir == direction::forward) ?
+        plan = check_fftw_plan((dir == direction::forward) ?
              fftwf_plan_many_dft_r2c(1, &size, howmanyffts, rdata, nullptr, stride, rdist,
                                                    cdata, nullptr, stride, cdist,
                                                    flags
@@ -393,7 +404,7 @@ struct plan_fftw<float, dir>{
              fftwf_plan_many_dft_c2r(1, &size, howmanyffts, cdata, nullptr, stride, cdist,
                                                    rdata, nullptr, stride, rdist,
                                                    flags
-                                   );
+                                   ));
     }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftwf_destroy_plan(plan); }
@@ -414,7 +425,7 @@ struct plan_fftw<double, dir>{
         // the in-place plan does not exist for all sizes, the arrays are not accessed by FFTW_ESTIMATE
         alignas(64) double rdata[2];
         alignas(64) fftw_complex cdata[1];
-        plan = (dir == direction::forward) ?
+        plan = check_fftw_plan((dir == direction::forward) ?
              fftw_plan_many_dft_r2c(1, &size, howmanyffts, rdata, nullptr, stride, rdist,
                                                    cdata, nullptr, stride, cdist,
                                                    flags
@@ -422,7 +433,7 @@ struct plan_fftw<double, dir>{
              fftw_plan_many_dft_c2r(1, &size, howmanyffts, cdata, nullptr, stride, cdist,
                                                    rdata, nullptr, stride, rdist,
                                                    flags
-                                   );
+                                   ));
     }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftw_destroy_plan(plan); }
@@ -569,8 +580,8 @@ struct plan_fftw_r2r{
     //! \brief Identical to the float-complex specialization.
     plan_fftw_r2r(int size, int howmanyffts, int stride, int dist){
         auto kind = make_kind_array<1>();
-        plan = fftw_r2r_types<scalar_type>::plan_many(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
-                                                      nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE);
+        plan = check_fftw_plan(fftw_r2r_types<scalar_type>::plan_many(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
+                                                      nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE));
     }
     //! \brief Identical to the float-complex specialization.
     plan_fftw_r2r(int size1, int size2, std::array<int, 2> const &embed, int howmanyffts, int stride, int dist){
@@ -578,18 +589,18 @@ struct plan_fftw_r2r{
         auto kind = make_kind_array<2>();
 
         if (embed[0] == 0 and embed[1] == 0){
-            plan = fftw_r2r_types<scalar_type>::plan_many(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
-                                                          nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE);
+            plan = check_fftw_plan(fftw_r2r_types<scalar_type>::plan_many(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
+                                                          nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE));
         }else{
-            plan = fftw_r2r_types<scalar_type>::plan_many(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
-                                                          nullptr, embed.data(), stride, dist, kind.data(), FFTW_ESTIMATE);
+            plan = check_fftw_plan(fftw_r2r_types<scalar_type>::plan_many(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
+                                                          nullptr, embed.data(), stride, dist, kind.data(), FFTW_ESTIMATE));
         }
     }
     //! \brief Identical to the float-complex specialization.
     plan_fftw_r2r(int size1, int size2, int size3){
         std::array<int, 3> size = {size3, size2, size1};
         auto kind = make_kind_array<3>();
-        plan = fftw_r2r_types<scalar_type>::plan_many(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1, kind.data(), FFTW_ESTIMATE);
+        plan = check_fftw_plan(fftw_r2r_types<scalar_type>::plan_many(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1, kind.data(), FFTW_ESTIMATE));
     }
     //! \brief Make the array with the kind of the transform.
     template<size_t dims> static std::array<fftw_r2r_kind, dims> make_kind_array() {
-- 
2.43.0


From 0255f6d2ce743d85da8db0707f121a2a757543df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:48 +0000
Subject: [PATCH 17/34] fix: the C interface reports a failed allocation of the
 plan handle

The handle was allocated outside the try block, so std::bad_alloc left the
extern "C" functions that report errors through their return code.
---
 src/heffte_c.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index bed7230..b3a6972 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -12,6 +12,8 @@
 
 #include "heffte_c_defines.h"
 
+#include <new>
+
 namespace heffte{
 
     bool backend_valid_c(int backend){
@@ -231,7 +233,8 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
                        int const outbox_low[3], int const outbox_high[3], int const *outbox_order,
                        MPI_Comm const comm, heffte_plan_options const *options, heffte_plan *plan){
     if (not heffte::backend_valid_c(backend)) return 1;
-    *plan = new heffte_fft_plan;
+    *plan = new (std::nothrow) heffte_fft_plan;
+    if (*plan == nullptr) return 2;
     (*plan)->backend_type = backend;
     (*plan)->using_r2c = 0;
 
@@ -285,7 +288,8 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
                            int r2c_direction, MPI_Comm const comm, heffte_plan_options const *options, heffte_plan *plan){
 
     if (not heffte::backend_valid_c(backend)) return 1;
-    *plan = new heffte_fft_plan;
+    *plan = new (std::nothrow) heffte_fft_plan;
+    if (*plan == nullptr) return 2;
     (*plan)->backend_type = backend;
     (*plan)->using_r2c = 1;
 
-- 
2.43.0


From 58496da7ca0a2679ed6964cdc597aa0036ae1e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 18/34] fix: the reduced box of an empty box keeps the order of
 its indexes

---
 include/heffte_geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index 8889b25..cc51f0e 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -94,7 +94,7 @@ struct box3d{
     }
     //! \brief Returns the box that is reduced in the given dimension according to the real-to-complex symmetry.
     box3d r2c(int dimension) const{
-        if (empty()) return box3d({0, 0, 0}, {-1, -1, -1});
+        if (empty()) return box3d({0, 0, 0}, {-1, -1, -1}, order);
         switch(dimension){
             case 0: return box3d(low, {low[0] + size[0] / 2, high[1], high[2]}, order);
             case 1: return box3d(low, {high[0], low[1] + size[1] / 2, high[2]}, order);
-- 
2.43.0


From e43eaa42ee36dfd25e770c9775ad1e58c8563d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 19/34] fix: boxes without indexes do not extend the world

---
 include/heffte_geometry.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index cc51f0e..d2a1ce0 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -228,9 +228,13 @@ struct ioboxes{
  */
 template<typename index>
 inline box3d<index> find_world(std::vector<box3d<index>> const &boxes){
-    std::array<index, 3> low  = boxes[0].low;
-    std::array<index, 3> high = boxes[0].high;
+    // boxes without indexes do not extend the world, no matter how the empty range is written
+    size_t first = 0;
+    while(first + 1 < boxes.size() and boxes[first].empty()) first++;
+    std::array<index, 3> low  = boxes[first].low;
+    std::array<index, 3> high = boxes[first].high;
     for(auto b : boxes){
+        if (b.empty()) continue;
         for(index i=0; i<3; i++)
             low[i] = std::min(low[i], b.low[i]);
         for(index i=0; i<3; i++)
-- 
2.43.0


From d91c44ecc92dd8608865cf7f453d54908aba30be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 20/34] fix: the 2-D box constructor with an order works for
 every index type

---
 include/heffte_geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index d2a1ce0..6bc43c8 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -80,7 +80,7 @@ struct box3d{
     //! \brief Constructor for the two dimensional case, order is either (0, 1) or (1, 0).
     box3d(std::array<index, 2> clow, std::array<index, 2> chigh, std::array<int, 2> corder) :
         box3d(std::array<index, 3>{clow[0], clow[1], 0}, std::array<index, 3>{chigh[0], chigh[1], 0},
-              std::array<index, 3>{corder[0], corder[1], 2}){}
+              std::array<int, 3>{corder[0], corder[1], 2}){}
     //! \brief Returns true if the box contains no indexes.
     bool empty() const{ return (size[0] <= 0 or size[1] <= 0 or size[2] <= 0); }
     //! \brief Counts all indexes in the box, i.e., the volume.
-- 
2.43.0


From 19f11155d00618948bb7e02b170c7850c4a38b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 21/34] fix: transforms without a workspace accept the complex
 types the user has declared

---
 include/heffte_fft3d.h     | 10 +++++-----
 include/heffte_fft3d_r2c.h | 16 ++++++++--------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index c771ba7..444f30e 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -410,7 +410,7 @@ public:
 
         auto workspace = make_buffer_container<typename transform_output<typename define_standard_type<output_type>::type, backend_tag>::type>(this->stream(), batch_size * size_workspace());
 
-        forward(batch_size, input, output, workspace.data(), scaling);
+        forward(batch_size, convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     /*!
@@ -470,8 +470,8 @@ public:
         static_assert(backend::check_types<backend_tag, output_type, input_type>::value,
                       "Using either an unknown complex type or an incompatible pair of types!");
 
-        auto workspace = make_buffer_container<typename transform_output<input_type, backend_tag>::type>(this->stream(), size_workspace());
-        backward(input, output, workspace.data(), scaling);
+        auto workspace = make_buffer_container<typename transform_output<typename define_standard_type<input_type>::type, backend_tag>::type>(this->stream(), size_workspace());
+        backward(convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     /*!
@@ -511,8 +511,8 @@ public:
         static_assert(backend::check_types<backend_tag, output_type, input_type>::value,
                       "Using either an unknown complex type or an incompatible pair of types!");
 
-        auto workspace = make_buffer_container<typename transform_output<input_type, backend_tag>::type>(this->stream(), batch_size * size_workspace());
-        backward(batch_size, input, output, workspace.data(), scaling);
+        auto workspace = make_buffer_container<typename transform_output<typename define_standard_type<input_type>::type, backend_tag>::type>(this->stream(), batch_size * size_workspace());
+        backward(batch_size, convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     /*!
diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index e450e65..bf91a22 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -149,8 +149,8 @@ public:
                    or (std::is_same<input_type, double>::value and is_zcomplex<output_type>::value),
                 "Using either an unknown complex type or an incompatible pair of types!");
 
-        auto workspace = make_buffer_container<output_type>(this->stream(), size_workspace());
-        forward(input, output, workspace.data(), scaling);
+        auto workspace = make_buffer_container<typename define_standard_type<output_type>::type>(this->stream(), size_workspace());
+        forward(convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     //! \brief Overload utilizing a user provided buffer.
@@ -187,8 +187,8 @@ public:
                    or (std::is_same<input_type, double>::value and is_zcomplex<output_type>::value),
                 "Using either an unknown complex type or an incompatible pair of types!");
 
-        auto workspace = make_buffer_container<output_type>(this->stream(), batch_size * size_workspace());
-        forward(batch_size, input, output, workspace.data(), scaling);
+        auto workspace = make_buffer_container<typename define_standard_type<output_type>::type>(this->stream(), batch_size * size_workspace());
+        forward(batch_size, convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     /*!
@@ -237,8 +237,8 @@ public:
                    or (std::is_same<output_type, double>::value and is_zcomplex<input_type>::value),
                 "Using either an unknown complex type or an incompatible pair of types!");
 
-        auto workspace = make_buffer_container<input_type>(this->stream(), size_workspace());
-        backward(input, output, workspace.data(), scaling);
+        auto workspace = make_buffer_container<typename define_standard_type<input_type>::type>(this->stream(), size_workspace());
+        backward(convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     //! \brief Overload utilizing a user provided buffer.
@@ -275,8 +275,8 @@ public:
                    or (std::is_same<output_type, double>::value and is_zcomplex<input_type>::value),
                 "Using either an unknown complex type or an incompatible pair of types!");
 
-        auto workspace = make_buffer_container<input_type>(this->stream(), batch_size * size_workspace());
-        backward(batch_size, input, output, workspace.data(), scaling);
+        auto workspace = make_buffer_container<typename define_standard_type<input_type>::type>(this->stream(), batch_size * size_workspace());
+        backward(batch_size, convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     /*!
-- 
2.43.0


From 2cd9d9590c0dd3805ab8afcf8971329e9eaf52a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 22/34] fix: the options handed over by the Python interface
 have the layout of the C structure

---
 python/heffte.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index 4ffa2b0..34854ff 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -38,7 +38,7 @@ class heffte_plan(Structure):
 LP_plan = POINTER(heffte_plan)
 
 class plan_options(Structure):
-    _fields_ = [ ("use_reorder", c_int), ("use_alltoall", c_int), ("use_pencils", c_int) ]
+    _fields_ = [ ("use_reorder", c_int), ("algorithm", c_int), ("use_pencils", c_int), ("use_gpu_aware", c_int) ]
 
 # double-check this!
 MPI_Comm = c_int if mpi._sizeof(mpi.COMM_WORLD) == sizeof(c_int) else c_void_p
@@ -150,7 +150,7 @@ def fft3d(backend_tag, inbox, outbox, comm):
     # Initialize
     plan.fft_comm = comm
     plan.plan = LP_plan()
-    options = plan_options(0,1,1)
+    options = plan_options(0,1,1,1)
 
     herr = libheffte.heffte_plan_create(backend_tag, inbox.low, inbox.high, inbox.order,
                                         outbox.low, outbox.high, outbox.order,
@@ -182,7 +182,7 @@ def fft3d_r2c(backend_tag, inbox, outbox, r2c_direction, comm):
     # Initialize
     plan.fft_comm = comm
     plan.plan = LP_plan()
-    options = plan_options(0,1,1)
+    options = plan_options(0,1,1,1)
 
     herr = libheffte.heffte_plan_create_r2c(backend_tag, inbox.low, inbox.high, inbox.order,
                                             outbox.low, outbox.high, outbox.order,
-- 
2.43.0


From 5e10fda9d729dc7cf4e2a81bb121ce958f26949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 23/34] fix: the Python interface knows that a real-to-complex
 plan is one

---
 python/heffte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index 34854ff..5ebf6be 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -174,7 +174,7 @@ def fft3d_r2c(backend_tag, inbox, outbox, r2c_direction, comm):
         raise heffte_input_error("fft3d_r2c() called with invalid r2c_direction, must use 0, 1, or 2")
 
     plan = heffte_fft_plan()
-    plan.use_r2c = False
+    plan.use_r2c = True
 
     # Define ctypes API for each library method
     comm_value = MPI_Comm.from_address( mpi._addressof(comm) )
-- 
2.43.0


From 6f7d490b63878c9867923a0074fbb6a6aeafd2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 24/34] fix: the Python interface checks the arrays of a
 backward transform against the right boxes

---
 python/heffte.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index 5ebf6be..884938f 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -316,7 +316,7 @@ class heffte_fft_plan:
         if scaling not in (0, 1, 2):
             raise heffte_input_error("backward() called with invalid scaling")
 
-        if inarray.size != self.size_inbox() or outarray.size != self.size_outbox():
+        if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
         if self.use_r2c:
@@ -359,9 +359,12 @@ class heffte_fft_plan:
         if scaling not in (0, 1, 2):
             raise heffte_input_error("backward() called with invalid scaling")
 
-        if inarray.size != self.size_inbox() or outarray.size != self.size_outbox():
+        if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
+        if workspace.size < self.size_workspace():
+            raise heffte_input_error("backward() called with insufficient workspace size")
+
         if self.use_r2c:
             if outarray.dtype == np.complex64 or outarray.dtype == np.complex128:
                 raise heffte_input_error("backward() called with r2c can use only real outarray types")
-- 
2.43.0


From 65f0c0c413a97073874a5a7fd946b26637ab82c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 25/34] fix: the construction of a plan that fails in Python
 does not destroy a plan that does not exist

---
 python/heffte.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index 884938f..4c75bc6 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -202,7 +202,8 @@ class heffte_fft_plan:
         pass
 
     def __del__(self):
-        libheffte.heffte_plan_destroy(self.plan)
+        if getattr(self, "plan", None): # there is no plan if the construction failed
+            libheffte.heffte_plan_destroy(self.plan)
 
     def _get_ctypes_data(self, x, xtype):
         '''
-- 
2.43.0


From ca2218294817e7b54056f1f290a3b67538e0f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 26/34] fix: the geometry helpers of the Python interface work

---
 python/heffte.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index 4c75bc6..17055df 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -130,6 +130,13 @@ class box3d:
         assert self.order.size == 3
         for i in range(3):
             assert self.order[i] in [0, 1, 2]
+        self.size = self.high - self.low + 1
+
+    def count(self):
+        '''
+        Returns the number of indexes in the box.
+        '''
+        return 0 if np.any(self.size <= 0) else int(np.prod(self.size, dtype = np.int64))
 
 def fft3d(backend_tag, inbox, outbox, comm):
     '''
@@ -440,10 +447,10 @@ def proc_setup(world, num_procs):
 
     for i in np.arange(1, num_procs+1):
         if (num_procs % i == 0):
-            remainder = num_procs / i
+            remainder = num_procs // i
             for j in np.arange(1, remainder+1):
                 if (remainder % j == 0):
-                    candidate_grid = [i, j, remainder / j]
+                    candidate_grid = [i, j, remainder // j]
                     candidate_surface = surface(candidate_grid)
                     if (candidate_surface < best_surface):
                         best_surface = candidate_surface
@@ -454,9 +461,9 @@ def proc_setup(world, num_procs):
     return best_grid
 
 def split_world(world, proc_grid):
-    fast = lambda i : world.low[0] + i * (world.size[0] / proc_grid[0]) + min(i, (world.size[0] % proc_grid[0]))
-    mid  = lambda i : world.low[1] + i * (world.size[1] / proc_grid[1]) + min(i, (world.size[1] % proc_grid[1]))
-    slow = lambda i : world.low[2] + i * (world.size[2] / proc_grid[2]) + min(i, (world.size[2] % proc_grid[2]))
+    fast = lambda i : world.low[0] + i * (world.size[0] // proc_grid[0]) + min(i, (world.size[0] % proc_grid[0]))
+    mid  = lambda i : world.low[1] + i * (world.size[1] // proc_grid[1]) + min(i, (world.size[1] % proc_grid[1]))
+    slow = lambda i : world.low[2] + i * (world.size[2] // proc_grid[2]) + min(i, (world.size[2] % proc_grid[2]))
 
     result = []
     for k in np.arange(proc_grid[2]):
-- 
2.43.0


From be690c1651bdc6a55a95047377f8472498f241df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 27/34] fix: the Python interface refuses arrays that are not
 contiguous

---
 python/heffte.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/heffte.py b/python/heffte.py
index 17055df..d42aeb5 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -217,6 +217,8 @@ class heffte_fft_plan:
         Internal use, extracts ctypes array from x
         '''
         if type(x) is np.ndarray:
+            if not (x.flags.c_contiguous or x.flags.f_contiguous):
+                raise heffte_input_error("the arrays must be contiguous in memory")
             return x.ctypes.data_as(xtype)
         else:
             return cast(x.device_ctypes_pointer.value, xtype)
-- 
2.43.0


From 835e9a110cd4ceeea36e5df6ead30d9fb53eff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 28/34] fix: the message of a Python exception can be printed

---
 python/heffte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index d42aeb5..aa4436c 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -31,7 +31,7 @@ class heffte_input_error(Exception):
         '''
         Prints the message set by the constructor.
         '''
-        print(message)
+        print(self.message)
 
 class heffte_plan(Structure):
     _fields_ = [ ("backend_type", c_int), ("using_r2c", c_int), ("fft", c_void_p) ]
-- 
2.43.0


From 61c89e02908ec13b2fcc640209ba7d18c3f4ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:28 +0000
Subject: [PATCH 29/34] fix: honour the box order in the merged 2D and 3D cuFFT
 executors

---
 include/heffte_backend_cuda.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/heffte_backend_cuda.h b/include/heffte_backend_cuda.h
index 849b94c..eca8816 100644
--- a/include/heffte_backend_cuda.h
+++ b/include/heffte_backend_cuda.h
@@ -458,7 +458,8 @@ public:
     template<typename index>
     cufft_executor(cudaStream_t active_stream, box3d<index> const box, int dir1, int dir2) :
         stream(active_stream),
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -467,23 +468,23 @@ public:
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     cufft_executor(cudaStream_t active_stream, box3d<index> const box) :
         stream(active_stream),
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
-- 
2.43.0


From 8da27f2baea46ab831c4e1109c54dda342c0d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:28 +0000
Subject: [PATCH 30/34] fix: the real data of every entry of a batch is aligned
 for the cuFFT real-to-complex transforms

---
 include/heffte_backend_cuda.h | 91 +++++++++++++++--------------------
 1 file changed, 40 insertions(+), 51 deletions(-)

diff --git a/include/heffte_backend_cuda.h b/include/heffte_backend_cuda.h
index eca8816..6373e16 100644
--- a/include/heffte_backend_cuda.h
+++ b/include/heffte_backend_cuda.h
@@ -652,78 +652,62 @@ public:
         rblock_stride(box.osize(0) * box.osize(1)),
         cblock_stride(box.osize(0) * (box.osize(1)/2 + 1)),
         rsize(box.count()),
+        rblock_size((blocks == 1) ? rsize : rblock_stride),
         csize(box.r2c(dimension).count())
     {}
 
     //! \brief Forward transform, single precision.
     void forward(float const indata[], std::complex<float> outdata[], std::complex<float> *workspace) const override{
         make_plan(sforward, direction::forward);
-        if (blocks == 1 or rblock_stride % 2 == 0){
-            for(int i=0; i<blocks; i++){
-                cufftReal *rdata = const_cast<cufftReal*>(indata + i * rblock_stride);
-                cufftComplex* cdata = reinterpret_cast<cufftComplex*>(outdata + i * cblock_stride);
-                cuda::check_error(cufftExecR2C(*sforward, rdata, cdata), "cufft_executor::cufftExecR2C()");
-            }
-        }else{
-            // need to create a temporary copy of the data since cufftExecR2C() requires aligned input
-            float *rdata = align<backend::cufft>::pntr(reinterpret_cast<float*>(workspace));
-            for(int i=0; i<blocks; i++){
-                backend::data_manipulator<tag::gpu>::copy_n(stream, indata + i * rblock_stride, rblock_stride, rdata);
-                cufftComplex* cdata = reinterpret_cast<cufftComplex*>(outdata + i * cblock_stride);
-                cuda::check_error(cufftExecR2C(*sforward, rdata, cdata), "cufft_executor::cufftExecR2C()");
+        for(int i=0; i<blocks; i++){
+            cufftReal *rdata = const_cast<cufftReal*>(indata + i * rblock_stride);
+            if (needs_copy(rdata)){
+                // need to create a temporary copy of the data since cufftExecR2C() requires aligned input
+                cufftReal *wdata = align<backend::cufft>::pntr(reinterpret_cast<float*>(workspace));
+                backend::data_manipulator<tag::gpu>::copy_n(stream, rdata, rblock_size, wdata);
+                rdata = wdata;
             }
+            cufftComplex* cdata = reinterpret_cast<cufftComplex*>(outdata + i * cblock_stride);
+            cuda::check_error(cufftExecR2C(*sforward, rdata, cdata), "cufft_executor::cufftExecR2C()");
         }
     }
     //! \brief Backward transform, single precision.
     void backward(std::complex<float> indata[], float outdata[], std::complex<float> *workspace) const override{
         make_plan(sbackward, direction::backward);
-        if (blocks == 1 or rblock_stride % 2 == 0){
-            for(int i=0; i<blocks; i++){
-                cufftComplex* cdata = const_cast<cufftComplex*>(reinterpret_cast<cufftComplex const*>(indata + i * cblock_stride));
-                cuda::check_error(cufftExecC2R(*sbackward, cdata, outdata + i * rblock_stride), "cufft_executor::cufftExecC2R()");
-            }
-        }else{
-            float *odata = align<backend::cufft>::pntr(reinterpret_cast<float*>(workspace));
-            for(int i=0; i<blocks; i++){
-                cufftComplex* cdata = const_cast<cufftComplex*>(reinterpret_cast<cufftComplex const*>(indata + i * cblock_stride));
-                cuda::check_error(cufftExecC2R(*sbackward, cdata, odata), "cufft_executor::cufftExecC2R()");
-                backend::data_manipulator<tag::gpu>::copy_n(stream, odata, rblock_stride, outdata + i * rblock_stride);
-            }
+        for(int i=0; i<blocks; i++){
+            cufftComplex* cdata = const_cast<cufftComplex*>(reinterpret_cast<cufftComplex const*>(indata + i * cblock_stride));
+            cufftReal *rdata = outdata + i * rblock_stride;
+            bool const copy = needs_copy(rdata);
+            cufftReal *wdata = (copy) ? align<backend::cufft>::pntr(reinterpret_cast<float*>(workspace)) : rdata;
+            cuda::check_error(cufftExecC2R(*sbackward, cdata, wdata), "cufft_executor::cufftExecC2R()");
+            if (copy) backend::data_manipulator<tag::gpu>::copy_n(stream, wdata, rblock_size, rdata);
         }
     }
     //! \brief Forward transform, double precision.
     void forward(double const indata[], std::complex<double> outdata[], std::complex<double> *workspace) const override{
         make_plan(dforward, direction::forward);
-        if (blocks == 1 or rblock_stride % 2 == 0){
-            for(int i=0; i<blocks; i++){
-                cufftDoubleReal *rdata = const_cast<cufftDoubleReal*>(indata + i * rblock_stride);
-                cufftDoubleComplex* cdata = reinterpret_cast<cufftDoubleComplex*>(outdata + i * cblock_stride);
-                cuda::check_error(cufftExecD2Z(*dforward, rdata, cdata), "cufft_executor::cufftExecD2Z()");
-            }
-        }else{
-            double *rdata = align<backend::cufft>::pntr(reinterpret_cast<double*>(workspace));
-            for(int i=0; i<blocks; i++){
-                backend::data_manipulator<tag::gpu>::copy_n(stream, indata + i * rblock_stride, rblock_stride, rdata);
-                cufftDoubleComplex* cdata = reinterpret_cast<cufftDoubleComplex*>(outdata + i * cblock_stride);
-                cuda::check_error(cufftExecD2Z(*dforward, rdata, cdata), "cufft_executor::cufftExecD2Z()");
+        for(int i=0; i<blocks; i++){
+            cufftDoubleReal *rdata = const_cast<cufftDoubleReal*>(indata + i * rblock_stride);
+            if (needs_copy(rdata)){
+                // need to create a temporary copy of the data since cufftExecD2Z() requires aligned input
+                cufftDoubleReal *wdata = align<backend::cufft>::pntr(reinterpret_cast<double*>(workspace));
+                backend::data_manipulator<tag::gpu>::copy_n(stream, rdata, rblock_size, wdata);
+                rdata = wdata;
             }
+            cufftDoubleComplex* cdata = reinterpret_cast<cufftDoubleComplex*>(outdata + i * cblock_stride);
+            cuda::check_error(cufftExecD2Z(*dforward, rdata, cdata), "cufft_executor::cufftExecD2Z()");
         }
     }
     //! \brief Backward transform, double precision.
     void backward(std::complex<double> indata[], double outdata[], std::complex<double> *workspace) const override{
         make_plan(dbackward, direction::backward);
-        if (blocks == 1 or rblock_stride % 2 == 0){
-            for(int i=0; i<blocks; i++){
-                cufftDoubleComplex* cdata = const_cast<cufftDoubleComplex*>(reinterpret_cast<cufftDoubleComplex const*>(indata + i * cblock_stride));
-                cuda::check_error(cufftExecZ2D(*dbackward, cdata, outdata + i * rblock_stride), "cufft_executor::cufftExecZ2D()");
-            }
-        }else{
-            double *odata = align<backend::cufft>::pntr(reinterpret_cast<double*>(workspace));
-            for(int i=0; i<blocks; i++){
-                cufftDoubleComplex* cdata = const_cast<cufftDoubleComplex*>(reinterpret_cast<cufftDoubleComplex const*>(indata + i * cblock_stride));
-                cuda::check_error(cufftExecZ2D(*dbackward, cdata, odata), "cufft_executor::cufftExecZ2D()");
-                backend::data_manipulator<tag::gpu>::copy_n(stream, odata, rblock_stride, outdata + i * rblock_stride);
-            }
+        for(int i=0; i<blocks; i++){
+            cufftDoubleComplex* cdata = const_cast<cufftDoubleComplex*>(reinterpret_cast<cufftDoubleComplex const*>(indata + i * cblock_stride));
+            cufftDoubleReal *rdata = outdata + i * rblock_stride;
+            bool const copy = needs_copy(rdata);
+            cufftDoubleReal *wdata = (copy) ? align<backend::cufft>::pntr(reinterpret_cast<double*>(workspace)) : rdata;
+            cuda::check_error(cufftExecZ2D(*dbackward, cdata, wdata), "cufft_executor::cufftExecZ2D()");
+            if (copy) backend::data_manipulator<tag::gpu>::copy_n(stream, wdata, rblock_size, rdata);
         }
     }
 
@@ -732,9 +716,14 @@ public:
     //! \brief Returns the size of the box with complex coefficients.
     int complex_size() const override{ return csize; }
     //! \brief Return the size of the needed workspace.
-    size_t workspace_size() const override{ return (blocks == 1 or rblock_stride % 2 == 0) ? 0 : rblock_stride / 2 + 1; }
+    size_t workspace_size() const override{ return (rsize % 2 == 0 and rblock_size % 2 == 0) ? 0 : rblock_size / 2 + 1; }
 
 private:
+    //! \brief Returns true if the real data of a block must be copied, the blocks and the entries of a batch with odd size are not aligned to the complex type.
+    template<typename scalar_type>
+    bool needs_copy(scalar_type const *rdata) const{
+        return (workspace_size() != 0 and reinterpret_cast<size_t>(rdata) % sizeof(std::complex<scalar_type>) != 0);
+    }
     //! \brief Helper template to initialize the plan.
     template<typename scalar_type>
     void make_plan(std::unique_ptr<plan_cufft_r2c<scalar_type>> &plan, direction dir) const{
@@ -744,7 +733,7 @@ private:
     cudaStream_t stream;
 
     int size, howmanyffts, stride, blocks;
-    int rdist, cdist, rblock_stride, cblock_stride, rsize, csize;
+    int rdist, cdist, rblock_stride, cblock_stride, rsize, rblock_size, csize;
     mutable std::unique_ptr<plan_cufft_r2c<float>> sforward;
     mutable std::unique_ptr<plan_cufft_r2c<double>> dforward;
     mutable std::unique_ptr<plan_cufft_r2c<float>> sbackward;
-- 
2.43.0


From 3a1621275b259a84dc9e230637942538948ec450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:28 +0000
Subject: [PATCH 31/34] fix: rocfft_setup() is called before the first plan is
 created

---
 include/heffte_backend_rocm.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/heffte_backend_rocm.h b/include/heffte_backend_rocm.h
index ecb4a61..543e6fe 100644
--- a/include/heffte_backend_rocm.h
+++ b/include/heffte_backend_rocm.h
@@ -566,9 +566,7 @@ public:
         total_size(box.count()),
         embed({0, 0}),
         worksize(compute_workspace_size())
-    {
-        rocm::initialize::make();
-    }
+    {}
     //! \brief Merges two FFTs into one.
     template<typename index>
     rocfft_executor(hipStream_t active_stream, box3d<index> const box, int dir1, int dir2) :
@@ -705,6 +703,7 @@ private:
     template<typename scalar_type, direction dir>
     void make_plan(std::unique_ptr<plan_rocfft<scalar_type, dir>> &plan) const{
         if (not plan){
+            rocm::initialize::make(); // rocfft_setup() must precede the creation of the plans
             if (dist == 0)
                 plan = std::unique_ptr<plan_rocfft<scalar_type, dir>>(new plan_rocfft<scalar_type, dir>(size, size2, howmanyffts));
             else if (size2 == 0)
@@ -759,9 +758,7 @@ public:
         rsize(box.count()),
         csize(box.r2c(dimension).count()),
         worksize(compute_workspace_size())
-    {
-        rocm::initialize::make();
-    }
+    {}
 
     //! \brief Forward transform, single precision.
     template<typename precision_type>
@@ -862,7 +859,10 @@ private:
     //! \brief Helper template to initialize the plan.
     template<typename scalar_type, direction dir>
     void make_plan(std::unique_ptr<plan_rocfft<scalar_type, dir>> &plan) const{
-        if (!plan) plan = std::unique_ptr<plan_rocfft<scalar_type, dir>>(new plan_rocfft<scalar_type, dir>(size, howmanyffts, stride, rdist, cdist));
+        if (!plan){
+            rocm::initialize::make(); // rocfft_setup() must precede the creation of the plans
+            plan = std::unique_ptr<plan_rocfft<scalar_type, dir>>(new plan_rocfft<scalar_type, dir>(size, howmanyffts, stride, rdist, cdist));
+        }
     }
 
     mutable hipStream_t stream;
-- 
2.43.0


From 8273ef9a3e7b8419bd75d65a27471127d2c63b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:28 +0000
Subject: [PATCH 32/34] fix: honour the box order in the merged 2D and 3D
 rocFFT executors

---
 include/heffte_backend_rocm.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/heffte_backend_rocm.h b/include/heffte_backend_rocm.h
index 543e6fe..bc712a8 100644
--- a/include/heffte_backend_rocm.h
+++ b/include/heffte_backend_rocm.h
@@ -571,7 +571,8 @@ public:
     template<typename index>
     rocfft_executor(hipStream_t active_stream, box3d<index> const box, int dir1, int dir2) :
         stream(active_stream),
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()),
         worksize(0)
     {
@@ -582,17 +583,17 @@ public:
             stride = 1;
             dist = size * size2;
             embed = {static_cast<size_t>(stride), static_cast<size_t>(size)};
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
             embed = {static_cast<size_t>(stride), static_cast<size_t>(size) * static_cast<size_t>(stride)};
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<size_t>(stride), static_cast<size_t>(box.size[1]) * static_cast<size_t>(box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<size_t>(stride), static_cast<size_t>(box.osize(1)) * static_cast<size_t>(box.osize(0))};
+            howmanyffts = box.osize(1);
         }
         worksize = compute_workspace_size();
     }
@@ -600,7 +601,7 @@ public:
     template<typename index>
     rocfft_executor(hipStream_t active_stream, box3d<index> const box) :
         stream(active_stream),
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
-- 
2.43.0


From 0281d8ce1ca9bb0716edfdf4de1f1d553681e794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:28 +0000
Subject: [PATCH 33/34] fix: honour the box order in the merged 2D and 3D
 oneMKL executors

---
 include/heffte_backend_oneapi.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/heffte_backend_oneapi.h b/include/heffte_backend_oneapi.h
index d6c3e3e..cb5da72 100644
--- a/include/heffte_backend_oneapi.h
+++ b/include/heffte_backend_oneapi.h
@@ -411,7 +411,8 @@ public:
     template<typename index>
     onemkl_executor(sycl::queue &inq, box3d<index> const box, int dir1, int dir2) :
         q(inq),
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()),
         init_cplan(false), init_zplan(false),
         cplan({size, size2}), zplan({size, size2})
@@ -423,24 +424,24 @@ public:
             stride = 1;
             dist = size * size2;
             embed = {0, static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size)};
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
             embed = {0, static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size) * static_cast<MKL_LONG>(stride)};
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {0, static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.size[1]) * static_cast<MKL_LONG>(box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {0, static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.osize(1)) * static_cast<MKL_LONG>(box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges two FFTs into one.
     template<typename index>
     onemkl_executor(sycl::queue &inq, box3d<index> const box) :
         q(inq),
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0), total_size(box.count()),
         init_cplan(false), init_zplan(false),
-- 
2.43.0


From 64b5f8531eb4a9d640b375c7b24ef4d77978979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:10 +0000
Subject: [PATCH 34/34] fix: roots of unity of the stock engine lose their
 digits at long lengths

The roots were computed by repeated multiplication without end: in single precision a line
of 1009 entries is off by 2 %, one of 8191 by 15 % and one of 20011 by 60 %. Every 16-th root
is now computed from its angle, and the angle is computed in double precision.
---
 include/stock_fft/heffte_stock_algos.h | 34 ++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/stock_fft/heffte_stock_algos.h b/include/stock_fft/heffte_stock_algos.h
index 50cfbcd..be28bf3 100644
--- a/include/stock_fft/heffte_stock_algos.h
+++ b/include/stock_fft/heffte_stock_algos.h
@@ -34,8 +34,17 @@ struct biFuncNode;
 template<typename F, int L>
 struct omega {
     static inline Complex<F, L> get(size_t power, size_t N, direction dir) {
-        F a = 2.*M_PI*((F) power)/((F) N);
-        return Complex<F,L>(cos(a), direction_sign(dir)*sin(a));
+        double a = 2.*M_PI*((double) (power % N))/((double) N);
+        return Complex<F,L>(static_cast<F>(cos(a)), static_cast<F>(direction_sign(dir)*sin(a)));
+    }
+    /*! \brief Advance w to the root with the given power, i.e., to the entry with the given index in a sequence with ratio step
+     * The rounding error of repeated multiplications grows with the index, hence every 16-th entry is computed anew.
+     */
+    static inline void next(Complex<F, L> &w, Complex<F, L> const &step, size_t index, size_t power, size_t N, direction dir) {
+        if(index % 16 == 0)
+            w = get(power, N, dir);
+        else
+            w *= step;
     }
 };
 
@@ -118,12 +127,12 @@ inline void DFT_helper(size_t size, Complex<F,L>* sig_in, Complex<F,L>* sig_out,
         // Calculate kth output
         for(size_t n = 1; n < size; n++) {
             tmp = wkn.fmadd(sig_in[n*s_in], tmp);
-            wkn *= wk;
+            omega<F,L>::next(wkn, wk, n+1, k*(n+1), size, dir);
         }
         sig_out[k*s_out] = tmp;
 
         // "Increment" wk and "reset" wkn
-        wk *= w0;
+        omega<F,L>::next(wk, w0, k+1, k+1, size, dir);
         wkn = wk;
     }
 }
@@ -166,7 +175,7 @@ inline void pow2_FFT_helper(size_t N, Complex<F,L>* x, Complex<F,L>* y, size_t s
         y_j = y[j_stride];
         y[j_stride]  = y_j + wj*y[jm_stride];
         y[jm_stride] = y_j - wj*y[jm_stride];
-        wj *= w1;
+        omega<F,L>::next(wj, w1, j+1, j+1, N, dir);
     }
 }
 
@@ -237,7 +246,9 @@ inline void pow4_FFT_helper(size_t N, Complex<F,L>* x, Complex<F,L>* y, size_t s
             y[k1] = wk2.fmadd(-y_k2, y_k0) + wk3.fmsub(y_k3, wk1*y_k1).__mul_i();
             y[k2] = wk2.fmadd( y_k2, y_k0) - wk1.fmadd(y_k1, wk3*y_k3);
             y[k3] = wk2.fmadd(-y_k2, y_k0) + wk1.fmsub(y_k1, wk3*y_k3).__mul_i();
-            wk1 *= w1; wk2 *= w2; wk3 *= w3;
+            omega<F,L>::next(wk1, w1, k+1,    k+1,  N, dir);
+            omega<F,L>::next(wk2, w2, k+1, 2*(k+1), N, dir);
+            omega<F,L>::next(wk3, w3, k+1, 3*(k+1), N, dir);
         }
     }
     else {
@@ -258,7 +269,9 @@ inline void pow4_FFT_helper(size_t N, Complex<F,L>* x, Complex<F,L>* y, size_t s
             y[k1] = wk2.fmadd(-y_k2, y_k0) + wk1.fmsub(y_k1, wk3*y_k3).__mul_i();
             y[k2] = wk2.fmadd( y_k2, y_k0) - wk1.fmadd(y_k1, wk3*y_k3);
             y[k3] = wk2.fmadd(-y_k2, y_k0) + wk3.fmsub(y_k3, wk1*y_k1).__mul_i();
-            wk1 *= w1; wk2 *= w2; wk3 *= w3;
+            omega<F,L>::next(wk1, w1, k+1,    k+1,  N, dir);
+            omega<F,L>::next(wk2, w2, k+1, 2*(k+1), N, dir);
+            omega<F,L>::next(wk3, w3, k+1, 3*(k+1), N, dir);
         }
     }
 }
@@ -296,10 +309,10 @@ inline void composite_FFT(Complex<F,L>* x, Complex<F,L>* y, size_t s_in, size_t
         if(j1 > 0) {
             for(size_t k2 = 1; k2 < N2; k2++) {
                 z[j1*N2 + k2] *= wk2;
-                wk2 *= wj1;
+                omega<F,L>::next(wk2, wj1, k2+1, j1*(k2+1), N, dir);
             }
         }
-        wj1 *= w1;
+        omega<F,L>::next(wj1, w1, j1+1, j1+1, N, dir);
     }
 
     /* Take the FFT of the "columns" of the output from the above "row" FFTs.
@@ -435,7 +448,8 @@ inline void pow3_FFT_helper(size_t N, Complex<F,L>* x, Complex<F,L>* y, size_t s
         y[k3] = wk2.fmadd(plus120  * tmpk_p_2, wk1.fmadd(minus120 * tmpk_p_1, tmpk));
 
         // Twiddle factors
-        wk1 *= w1; wk2 *= w2;
+        omega<F,L>::next(wk1, w1, k+1,    k+1,  N, dir);
+        omega<F,L>::next(wk2, w2, k+1, 2*(k+1), N, dir);
     }
 }
 
-- 
2.43.0

