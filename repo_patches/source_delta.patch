From 77e4f5c72fa9113762857192aa660d4659697082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 01/30] fix: parallel training updated the weights while tasks
 were still reading them

Wait for all the tasks of a round, also when one of them or the enqueuing
fails, before applying any gradient. The batch index no longer wraps around
for huge batch sizes.
---
 source/middleware/fnn.hpp | 110 ++++++++++++++++++++++++--------------
 1 file changed, 70 insertions(+), 40 deletions(-)

diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 4aaacd0..0e5ee92 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -37,6 +37,7 @@
 
 #include "betterthreads/task_manager.hpp"
 
+#include <algorithm>
 #include <map>
 #include <tuple>
 #include <utility>
@@ -51,6 +52,40 @@ template<
     typename T = NumType>
 struct Training { };
 
+/**
+ * \brief Enqueue tasks that train copies of a model and collect the copies.
+ * The copies share their parameters with the model from which they are copied,
+ * then no parameter can be updated until all the tasks are ended: the method
+ * returns, or throws the exception of the first failed task, only when no task
+ * is running.
+ * \param amount  The amount of tasks.
+ * \param enqueue Function that enqueues the next task and returns its future.
+ * \return The models trained by the tasks, in the order of enqueuing.
+ */
+template<typename EnqueueFunction>
+std::vector<Model> run_training_tasks(SizeType amount, EnqueueFunction enqueue)
+{
+    std::vector<BetterThreads::Future<Model>> futures;
+    std::vector<Model> models;
+    try
+    {
+        futures.reserve(amount);
+        models.reserve(amount);
+        for (SizeType i = 0; i < amount; ++i)
+        {
+            futures.push_back(enqueue());
+        }
+    }
+    catch (...)
+    {
+        for (auto& f: futures) f.wait();
+        throw;
+    }
+    for (auto& f: futures) f.wait();
+    for (auto& f: futures) models.push_back(f.get());
+    return models;
+}
+
 template<typename T>
 struct Training<ParallelizationLevel::SEQUENTIAL, T>
 {
@@ -90,23 +125,20 @@ public:
             {
                 model.reset_score();
 
-                std::vector<BetterThreads::Future<Model>> futures;
-                for (SizeType b = 0; b < batch_size
-                                     && i < data.size(); ++b, ++i)
-                {
-                    futures.push_back(tm.enqueue(
-                        [&](SizeType idx) {
-                            Model m(model);
-                            m.step(data.input(idx), data.label(idx));
-                            return m;
-                        }, i));
-                    std::cout << "step " << i << std::endl;
-                }
-
-                for (auto& f: futures) {
-                    Model m = f.get();
-                    model.train(o, m);
-                }
+                auto models = run_training_tasks(
+                    std::min(batch_size, data.size() - i),
+                    [&]() {
+                        auto f = tm.enqueue(
+                            [&](SizeType idx) {
+                                Model m(model);
+                                m.step(data.input(idx), data.label(idx));
+                                return m;
+                            }, i);
+                        std::cout << "step " << i++ << std::endl;
+                        return f;
+                    });
+
+                for (auto& m: models) model.train(o, m);
             }
         }
     }
@@ -127,30 +159,28 @@ public:
             {
                 model.reset_score();
 
-                std::vector<BetterThreads::Future<Model>> futures;
-                for (SizeType t = 0; t < tm.concurrency(); ++t)
-                {
-                    futures.push_back(tm.enqueue(
-                        [&, batch_size](SizeType idx)
-                        {
-                            Model m(model);
-                            for (SizeType b = 0;
-                                 b < batch_size && idx < data.size();
-                                 ++b, ++idx)
+                auto models = run_training_tasks(
+                    tm.concurrency(),
+                    [&]() {
+                        auto f = tm.enqueue(
+                            [&, batch_size](SizeType idx)
                             {
-                                m.step(data.input(idx),
-                                       data.label(idx));
-                            }
-                            return m;
-                        }, i));
-                    std::cout << "step " << i << std::endl;
-                    i += batch_size;
-                }
-
-                for (auto& f: futures) {
-                    Model m = f.get();
-                    model.train(o, m);
-                }
+                                Model m(model);
+                                for (SizeType b = 0;
+                                     b < batch_size && idx < data.size();
+                                     ++b, ++idx)
+                                {
+                                    m.step(data.input(idx),
+                                           data.label(idx));
+                                }
+                                return m;
+                            }, i);
+                        std::cout << "step " << i << std::endl;
+                        i += std::min(batch_size, data.size() - i);
+                        return f;
+                    });
+
+                for (auto& m: models) model.train(o, m);
             }
         }
     }
-- 
2.43.0


From 8507fc57ac454ab8b9b26431d073b3ff63fbd5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 02/30] fix: threaded dense kernels shared the input gradients
 between tasks

Each task now owns the elements that it writes, and the kernels return or
throw only when no task is running.
---
 source/dnn/dlmath.hpp | 88 +++++++++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 32 deletions(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index 9c24244..50d2d37 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -1802,22 +1802,14 @@ public:
         T* dst, const T* src, const T* weights, const T* bias,
         SizeType input_size, SizeType output_size)
     {
-        auto& tm = BetterThreads::TaskManager::instance();
-        tm.set_maximum_concurrency();
-        std::vector<BetterThreads::Future<void>> futures;
-        for (SizeType i = 0; i < output_size; ++i)
-        {
-            futures.push_back(tm.enqueue(
-                [&](SizeType out_idx) {
-                    dst[out_idx] = bias[out_idx];
-                    for (SizeType j = 0; j < input_size; ++j)
-                    {
-                        dst[out_idx] += weights[
-                            (out_idx * input_size) + j] * src[j];
-                    }
-                }, i));
-        }
-        for (auto& f: futures) f.get();
+        _run_tasks(output_size, [&](SizeType out_idx) {
+            dst[out_idx] = bias[out_idx];
+            for (SizeType j = 0; j < input_size; ++j)
+            {
+                dst[out_idx] += weights[
+                    (out_idx * input_size) + j] * src[j];
+            }
+        });
         return dst;
     }
 
@@ -1876,29 +1868,61 @@ public:
         const T* gradients, const T* last_input, const T* weights,
         SizeType input_size, SizeType output_size)
     {
-        std::fill(input_gradients, input_gradients + input_size, 0);
+        _run_tasks(output_size, [&](SizeType out_idx) {
+            bias_gradients[out_idx] += gradients[out_idx];
+            for (SizeType j = 0; j < input_size; ++j)
+            {
+                weight_gradients[(out_idx * input_size) + j] +=
+                    gradients[out_idx] * last_input[j];
+            }
+        });
+        // Each task owns an input gradient: it sums the contributions of all
+        // the outputs.
+        _run_tasks(input_size, [&](SizeType in_idx) {
+            input_gradients[in_idx] = 0;
+            for (SizeType i = 0; i < output_size; ++i)
+            {
+                input_gradients[in_idx] +=
+                    gradients[i] * weights[(i * input_size) + in_idx];
+            }
+        });
+        return input_gradients;
+    }
+
+private:
+    /**
+     * \brief Run a function for each index in a task of the task manager.
+     * The method returns, or throws the exception of the first failed task,
+     * only when no task is running: the function can refer to the variables of
+     * the caller.
+     * \tparam F     Type of the function.
+     * \param amount The amount of tasks.
+     * \param f      The function to call for each index in [0, amount).
+     */
+    template <typename F>
+    static void _run_tasks(SizeType amount, const F& f)
+    {
         auto& tm = BetterThreads::TaskManager::instance();
         tm.set_maximum_concurrency();
         std::vector<BetterThreads::Future<void>> futures;
-        for (SizeType i = 0; i < output_size; ++i)
+        futures.reserve(amount);
+        try
         {
-            futures.push_back(tm.enqueue(
-                [&](SizeType out_idx) {
-                    bias_gradients[out_idx] += gradients[out_idx];
-                    for (SizeType j = 0; j < input_size; ++j)
-                    {
-                        weight_gradients[(out_idx * input_size) + j] +=
-                            gradients[out_idx] * last_input[j];
-                        input_gradients[j] +=
-                            gradients[out_idx] * weights[(out_idx * input_size) + j];
-                    }
-                }, i));
+            for (SizeType i = 0; i < amount; ++i)
+            {
+                futures.push_back(
+                    tm.enqueue([&f](SizeType idx) { f(idx); }, i));
+            }
         }
-        for (auto& f: futures) f.get();
-        return input_gradients;
+        catch (...)
+        {
+            for (auto& future: futures) future.wait();
+            throw;
+        }
+        for (auto& future: futures) future.wait();
+        for (auto& future: futures) future.get();
     }
 
-private:
     /**
      * \brief Sum of multiplication between the kernel and the source matrix
      * for Convolution 3D.
-- 
2.43.0


From 8198b88e984b91ad7bc1fdc34db804c3dd359415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 03/30] fix: convolutional bias gradients of a batch were
 overwritten instead of summed

---
 source/dnn/convolutional.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/dnn/convolutional.cpp b/source/dnn/convolutional.cpp
index b1302d1..163804d 100644
--- a/source/dnn/convolutional.cpp
+++ b/source/dnn/convolutional.cpp
@@ -129,7 +129,7 @@ const std::vector<NumType>& ConvolutionalLayer::backward(
                 sum += gradients[r * step + c * _n_filters + f];
             }
         }
-        _bias_gradients[f] = sum;
+        _bias_gradients[f] += sum;
     }
 
     /*
-- 
2.43.0


From f0777d315cf579f9d1202ec9755169c561d30627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 04/30] fix: dropout layers ignored the seed the model is
 initialised with

The random generator of a dropout layer was always seeded from the host's
random device, so training a network with dropout was not reproducible
with a given non-zero seed.
---
 source/dnn/dropout.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/dnn/dropout.hpp b/source/dnn/dropout.hpp
index 915284f..a4dd2b6 100644
--- a/source/dnn/dropout.hpp
+++ b/source/dnn/dropout.hpp
@@ -50,10 +50,11 @@ public:
     { return TYPE; }
 
     /**
-     * \brief No initialization is needed for Pooling layers.
+     * \brief Dropout layers have no parameters to initialize, only the random
+     * generator that chooses the values to drop.
      * \param init  Not used.
      * \param pdf   Not used.
-     * \param rne   Not used.
+     * \param rne   The random generator to use from now on.
      */
     void init(
         InitializationFunction init = InitializationFunction::KAIMING,
@@ -63,7 +64,7 @@ public:
     {
         (void) init;
         (void) pdf;
-        (void) rne;
+        _random_generator = rne;
     };
 
     const std::vector<NumType>& forward(
-- 
2.43.0


From b3da878797dc1d99de199aa7f05c35548f27fa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 05/30] fix: automatic names were not unique when created by
 several threads

DLMath::unique() incremented a plain static counter.
---
 source/dnn/dlmath.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dlmath.hpp b/source/dnn/dlmath.hpp
index 50d2d37..304dc4b 100644
--- a/source/dnn/dlmath.hpp
+++ b/source/dnn/dlmath.hpp
@@ -29,6 +29,7 @@
 #include "type.hpp"
 #include "betterthreads/task_manager.hpp"
 
+#include <atomic>
 #include <cmath>
 #include <functional>
 #include <cassert>
@@ -455,7 +456,7 @@ public:
 
     static SizeType unique()
     {
-        static SizeType id = 0;
+        static std::atomic<SizeType> id{0};
         return id++;
     }
 
-- 
2.43.0


From 9f0c4dac29432af1ae55fdca8fe9d7794394bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:12 +0000
Subject: [PATCH 06/30] fix: unreadable MNIST headers, images and labels were
 returned as made-up data

---
 source/parser/mnist.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/source/parser/mnist.hpp b/source/parser/mnist.hpp
index 558d760..31c5596 100644
--- a/source/parser/mnist.hpp
+++ b/source/parser/mnist.hpp
@@ -74,7 +74,10 @@ static inline uint32_t read_uint32_endian_order(std::ifstream& ifs)
 {
     std::uint32_t ret;
     char* buf = reinterpret_cast<char*>(&ret);
-    ifs.read(buf, 4);
+    if (!ifs.read(buf, 4))
+    {
+        throw std::runtime_error("Data malformed: could not read header");
+    }
     uint32_endian_order(ret);
     return ret;
 }
@@ -367,26 +370,42 @@ public:
      * \brief Get an image from the Mnist dataset at index.
      * \param idx The index of the Mnist image.
      * \return MnistImage The image object at idx index.
+     * The method throws a std::runtime_error if the image cannot be read.
      */
     MnistImage image(std::size_t idx)
     {
+        if (_size == 0) throw std::runtime_error("Images malformed: no images");
         idx = idx % _size;
+        _image_ifs.clear();
         _image_ifs.seekg(static_cast<std::int64_t>(
             IMAGE_HEADER_SIZE + idx * height() * width()), _image_ifs.beg);
-        return MnistImage{_image_ifs, idx};
+        MnistImage ret{_image_ifs, idx};
+        if (!_image_ifs)
+        {
+            throw std::runtime_error("Images malformed: could not read image");
+        }
+        return ret;
     }
 
     /**
      * \brief Get a label from the Mnist dataset at index.
      * \param idx The index of the Mnist label.
      * \return MnistLabel The label object at idx index.
+     * The method throws a std::runtime_error if the label cannot be read.
      */
     MnistLabel label(std::size_t idx)
     {
+        if (_size == 0) throw std::runtime_error("Labels malformed: no labels");
         idx = idx % _size;
+        _label_ifs.clear();
         _label_ifs.seekg(static_cast<std::int64_t>(
             LABEL_HEADER_SIZE + idx), _label_ifs.beg);
-        return MnistLabel{_label_ifs, idx};
+        MnistLabel ret{_label_ifs, idx};
+        if (!_label_ifs)
+        {
+            throw std::runtime_error("Labels malformed: could not read label");
+        }
+        return ret;
     }
 
     /**
-- 
2.43.0


From 0d980ebab1aa5a24ce6a96ba58ef80c372698685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:12 +0000
Subject: [PATCH 07/30] fix: unreadable CIFAR files, images and labels were
 returned as made-up data

---
 source/parser/cifar.hpp | 60 ++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/source/parser/cifar.hpp b/source/parser/cifar.hpp
index 59a5089..757a678 100644
--- a/source/parser/cifar.hpp
+++ b/source/parser/cifar.hpp
@@ -362,22 +362,15 @@ public:
         , _fine_label_names{}
         , _label_offset{}
     {
-        std::ifstream coarse_label_meta_ifs(coarse_label_meta_fp);
-        std::string line;
-        while (std::getline(coarse_label_meta_ifs, line))
+        if (!_batch_ifs.is_open())
         {
-            if (!line.empty()) _coarse_label_names.push_back(line);
+            throw std::runtime_error("Batch malformed: could not open file");
         }
-        coarse_label_meta_ifs.close();
+        _coarse_label_names = _read_label_names(coarse_label_meta_fp);
 
         if (!fine_label_meta_fp.empty() && _dataset == CifarDataset::CIFAR_100)
         {
-            std::ifstream fine_label_meta_ifs(fine_label_meta_fp);
-            while (std::getline(fine_label_meta_ifs, line))
-            {
-                if (!line.empty()) _fine_label_names.push_back(line);
-            }
-            fine_label_meta_ifs.close();
+            _fine_label_names = _read_label_names(fine_label_meta_fp);
         }
         else if (fine_label_meta_fp.empty())
         {
@@ -480,30 +473,44 @@ public:
      * \brief Get an image from the Cifar dataset at index.
      * \param idx The index of the Cifar image.
      * \return CifarImage The image object at idx index.
+     * The method throws a std::runtime_error if the image cannot be read.
      */
     CifarImage image(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear();
         _batch_ifs.seekg(
             static_cast<std::int64_t>(
                 (idx * (height() * width() * channels() + _label_offset))
                 + _label_offset),
             _batch_ifs.beg);
-        return CifarImage{_batch_ifs, idx, _order};
+        CifarImage ret{_batch_ifs, idx, _order};
+        if (!_batch_ifs)
+        {
+            throw std::runtime_error("Batch malformed: could not read image");
+        }
+        return ret;
     }
 
     /**
      * \brief Get a label from the Cifar dataset at index.
      * \param idx The index of the Cifar label.
      * \return CifarLabel The label object at idx index.
+     * The method throws a std::runtime_error if the label cannot be read.
      */
     CifarLabel label(std::size_t idx)
     {
         idx = idx % SIZE;
+        _batch_ifs.clear();
         _batch_ifs.seekg(static_cast<std::int64_t>(
             idx * (height() * width() * channels() + _label_offset)),
             _batch_ifs.beg);
-        return CifarLabel{_batch_ifs, idx, _dataset};
+        CifarLabel ret{_batch_ifs, idx, _dataset};
+        if (!_batch_ifs)
+        {
+            throw std::runtime_error("Batch malformed: could not read label");
+        }
+        return ret;
     }
 
     /**
@@ -578,6 +585,33 @@ public:
 
 private:
 
+    /**
+     * \brief Read the label names, one for each not empty line.
+     * \param label_meta_fp The file path of the label names.
+     * \return std::vector<std::string> The label names.
+     * The method throws a std::runtime_error if the file cannot be read.
+     */
+    static std::vector<std::string> _read_label_names(
+        const fs::path& label_meta_fp)
+    {
+        std::ifstream label_meta_ifs(label_meta_fp);
+        if (!label_meta_ifs.is_open())
+        {
+            throw std::runtime_error("Labels malformed: could not open file");
+        }
+        std::vector<std::string> ret;
+        std::string line;
+        while (std::getline(label_meta_ifs, line))
+        {
+            if (!line.empty()) ret.push_back(line);
+        }
+        if (label_meta_ifs.bad())
+        {
+            throw std::runtime_error("Labels malformed: could not read file");
+        }
+        return ret;
+    }
+
     std::ifstream _batch_ifs; ///< \brief Images input stream.
     CifarShapeOrder _order;   ///< \brief Images shape order in output.
     CifarDataset _dataset;    ///< \brief Dataset type format.
-- 
2.43.0


From 2885beaca50ba72ba6319b9b7662b1d6df9f990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:46 +0000
Subject: [PATCH 08/30] fix: CSV rows that could not be read were returned as
 empty, truncated or stale rows

---
 source/parser/csv.hpp          | 52 +++++++++++++++++++++++++---------
 source/parser/type_checker.hpp |  1 +
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index d3a9eaf..7533b8a 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -180,6 +180,7 @@ public:
             || types.size() != cols_amount) 
         {
             std::stringstream ss{line};
+            ss.exceptions(std::ios_base::badbit);
             _types = std::vector<TypeChecker::Type>{};
             for (std::size_t i = 0; i < cols_amount; ++i)
             {
@@ -280,6 +281,7 @@ public:
         std::string field;
         std::size_t i = 0;
         std::stringstream ss{_line};
+        ss.exceptions(std::ios_base::badbit);
         while(std::getline(ss, field, _separator)) 
         {
             if(i == idx)
@@ -329,6 +331,7 @@ public:
         std::vector<std::string> ret;
         ret.resize(_cols_amount);
         std::stringstream ss{_line};
+        ss.exceptions(std::ios_base::badbit);
         for (std::size_t i = 0; i < _cols_amount; ++i)
         {
             std::string s;
@@ -346,6 +349,7 @@ public:
     {
         std::vector<CSVField> ret{};
         std::stringstream ss{_line};
+        ss.exceptions(std::ios_base::badbit);
         for (std::size_t i = 0; i < _cols_amount; ++i)
         {
             std::string s;
@@ -376,11 +380,12 @@ public:
         std::vector<T> ret;
         ret.resize(_cols_amount);
         std::stringstream ss{_line};
+        ss.exceptions(std::ios_base::badbit);
         for (std::size_t i = 0; i < _cols_amount; ++i)
         {
             std::string s;
             std::getline(ss, s, _separator);
-            T t;
+            T t{};
             _tc.template operator()<T>(s, t);
             ret[i] = t;
         }
@@ -439,6 +444,21 @@ private:
     char _separator;           ///< The separator of each field.
 };
 
+/**
+ * \brief Read the next line of a CSV file.
+ * \param stream The stream of the CSV file.
+ * \param line   The string in which to put the line.
+ * A line that cannot be read up to its newline leaves the stream not good and
+ * throws a std::runtime_error.
+ */
+inline void read_csv_line(std::istream& stream, std::string& line)
+{
+    if (!std::getline(stream, line) || stream.eof())
+    {
+        throw std::runtime_error("CSV bad format: could not read the row");
+    }
+}
+
 /**
  * \brief Iterator pattern for CSV class.
  */
@@ -466,7 +486,7 @@ public:
         , _req_row_idx{idx}
         , _stream{fn}
     {
-        std::getline(_stream, _row._line);
+        read_csv_line(_stream, _row._line);
     }
 
     /**
@@ -480,7 +500,7 @@ public:
         , _req_row_idx{obj._req_row_idx}
         , _stream{obj._fn}
     {
-        std::getline(_stream, _row._line);
+        read_csv_line(_stream, _row._line);
     }
 
     /**
@@ -584,11 +604,12 @@ private:
      */
     void update_row()
     {
-        if (_req_row_idx < _row._idx) 
+        if (_req_row_idx < _row._idx || !_stream.good())
         {
-            _row._idx = 0;
+            _stream.clear();
             _stream.seekg(0);
-            std::getline(_stream, _row._line);
+            _row._idx = 0;
+            read_csv_line(_stream, _row._line);
         }
 
         for (std::size_t i = _row._idx + 1; i < _req_row_idx; ++i)
@@ -599,7 +620,7 @@ private:
 
         if (_row._idx != _req_row_idx)
         {
-            std::getline(_stream, _row._line);
+            read_csv_line(_stream, _row._line);
             _row._idx = _req_row_idx;
         }
     }
@@ -656,12 +677,16 @@ public:
         }
 
         // Get number of rows.
+        file.exceptions(std::ios_base::badbit);
         file.unsetf(std::ios_base::skipws);
         _rows_amount = static_cast<std::size_t>(
             std::count(std::istream_iterator<char>(file), 
                 std::istream_iterator<char>(), '\n'));
         file.clear();
-        file.seekg(0);
+        if (!file.seekg(0))
+        {
+            throw std::runtime_error("Could not read file");
+        }
 
         // Get first two lines.
         std::string header, first_line;
@@ -677,6 +702,7 @@ public:
             || types.size() != _cols_amount) 
         {
             std::stringstream ss{first_line};
+            ss.exceptions(std::ios_base::badbit);
             for (std::size_t i = 0; i < _cols_amount; ++i)
             {
                 std::string s;
@@ -743,7 +769,7 @@ public:
         }
 
         std::string line;
-        std::getline(file, line);
+        read_csv_line(file, line);
         _row_cache = CSVRow{line, idx, _cols_amount, _types, _separator};
         file.close();
         return CSVRow{_row_cache};
@@ -782,7 +808,7 @@ public:
         std::string line;
         for (std::size_t i = 0; i < _rows_amount; ++i)
         {
-            if (!std::getline(file, line)) break;
+            read_csv_line(file, line);
             ret[i] = line;
         }
 
@@ -802,7 +828,7 @@ public:
         std::string line;
         for (std::size_t i = 0; i < _rows_amount; ++i)
         {
-            if (!std::getline(file, line)) break;
+            read_csv_line(file, line);
             ret.push_back(CSVRow{line, i, _cols_amount, _types, _separator});
         }
 
@@ -826,7 +852,7 @@ public:
         std::string line;
         for (std::size_t i = 0; i < _rows_amount; ++i)
         {
-            if (!std::getline(file, line)) break;
+            read_csv_line(file, line);
             ret[i] = std::vector<T>(CSVRow{line, i, _cols_amount, _types, _separator});
         }
 
@@ -849,7 +875,7 @@ public:
         std::string line;
         for (std::size_t i = 0; i < _rows_amount; ++i)
         {
-            if (!std::getline(file, line)) break;
+            read_csv_line(file, line);
             auto line_vec = std::vector<T>(CSVRow{line, i, _cols_amount, _types, _separator});
             ret.insert(ret.end(), line_vec.begin(), line_vec.end());
         }
diff --git a/source/parser/type_checker.hpp b/source/parser/type_checker.hpp
index 1376eaa..831e2f9 100644
--- a/source/parser/type_checker.hpp
+++ b/source/parser/type_checker.hpp
@@ -69,6 +69,7 @@ template<typename T>
 inline bool convert(const std::string &s, T& ref)
 {
     std::stringstream ss{s};
+    ss.exceptions(std::ios_base::badbit); // Do not hide an allocation failure.
     ss >> ref;
     return !ss.fail() && ss.eof();
 }
-- 
2.43.0


From b83708c7850bb5d1c780a170fb279e7cfad17756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:46 +0000
Subject: [PATCH 09/30] fix: reading a truncated or failing JSON stream did not
 end or returned made-up values

---
 source/parser/json.hpp | 125 +++++++++++++++++++++++++++--------------
 1 file changed, 83 insertions(+), 42 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 0f1f32a..54c5b8a 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1486,24 +1486,79 @@ inline std::ostream& operator<<(std::ostream& os, const JsonLeaf& obj)
     return os;
 }
 
-inline std::istream& operator>>(std::istream &os, JsonLeaf& obj)
+/**
+ * \brief Read the next character of a json document.
+ * \param is The stream of the document.
+ * \return char The next character.
+ * A document that ends early or cannot be read throws a std::runtime_error.
+ */
+inline char json_read_char(std::istream& is)
+{
+    char c;
+    if (!is.read(&c, 1))
+    {
+        throw std::runtime_error("JSON malformed: unexpected end of document");
+    }
+    return c;
+}
+
+/**
+ * \brief Read the document up to a mandatory delimiter, that is discarded.
+ * \param is        The stream of the document.
+ * \param delimiter The delimiter character.
+ * \return std::string The characters before the delimiter.
+ * A document that ends early or cannot be read throws a std::runtime_error.
+ */
+inline std::string json_read_until(std::istream& is, char delimiter)
+{
+    std::string ret;
+    if (!std::getline(is, ret, delimiter) || is.eof())
+    {
+        throw std::runtime_error("JSON malformed: unexpected end of document");
+    }
+    return ret;
+}
+
+/**
+ * \brief Go back in the stream of a json document.
+ * \param is The stream of the document.
+ * \param n  The number of characters to read again.
+ */
+inline void json_go_back(std::istream& is, std::size_t n)
+{
+    if (!is.seekg(-long(n), is.cur))
+    {
+        throw std::runtime_error("JSON malformed: document not readable");
+    }
+}
+
+/**
+ * \brief Skip the separator that could follow a json object.
+ * \param is The stream of the document: its end is a valid end of the object.
+ */
+inline void json_skip_separator(std::istream& is)
 {
     char c;
-    os.read(&c, 1);
+    if (!is.eof() && is.read(&c, 1) && c != ',') json_go_back(is, 1);
+}
+
+inline std::istream& operator>>(std::istream &os, JsonLeaf& obj)
+{
+    char c = json_read_char(os);
     if (c == '\"')
     {
         obj._type = TypeChecker::Type::STRING;
-        std::getline(os, obj._val, '\"');
-        if (!os.eof())
-        {
-            os.read(&c, 1);
-            if (c != ',') os.seekg(-1, os.cur);
-        }
+        obj._val = json_read_until(os, '\"');
+        json_skip_separator(os);
     }
     else
     {
-        os.seekg(-1, os.cur);
+        json_go_back(os, 1);
         std::getline(os, obj._val, ',');
+        if (os.bad())
+        {
+            throw std::runtime_error("JSON malformed: document not readable");
+        }
         auto obj_val_len = obj._val.size();
         auto pos_square = obj._val.find(']');
         auto pos_bracket = obj._val.find('}');
@@ -1511,8 +1566,8 @@ inline std::istream& operator>>(std::istream &os, JsonLeaf& obj)
         if (pos != std::string::npos)
         {
             obj._val = obj._val.substr(0, pos);
-            if (!os.eof()) os.seekg(-1, os.cur); // ','
-            os.seekg(-long(obj_val_len - pos), os.cur);
+            if (!os.eof()) json_go_back(os, 1); // ','
+            json_go_back(os, obj_val_len - pos);
         }
         obj._type = obj._tc(obj._val);
     }
@@ -1537,33 +1592,27 @@ inline std::ostream& operator<<(std::ostream& os, const JsonList& obj)
 
 inline std::istream& operator>>(std::istream &os, JsonList& obj)
 {
-    char c;
-    os.read(&c, 1);
+    json_read_char(os);
 
     std::string more_items;
     while (true) {
-        std::getline(os, more_items, ']');
-        os.seekg(-long(more_items.size() + 1), os.cur);
+        more_items = json_read_until(os, ']');
+        json_go_back(os, more_items.size() + 1);
         JsonItem ji;
         os >> ji;
         obj._list.push_back(ji);
 
-        os.read(&c, 1);
-        if (c == ']')
+        if (json_read_char(os) == ']')
         {
             break;
         }
         else
         {
-            os.seekg(-1, os.cur);
+            json_go_back(os, 1);
         }
     }
 
-    if (!os.eof())
-    {
-        os.read(&c, 1);
-        if (c != ',') os.seekg(-1, os.cur);
-    }
+    json_skip_separator(os);
     return os;
 }
 
@@ -1585,39 +1634,32 @@ inline std::ostream& operator<<(std::ostream& os, const JsonDict& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonDict& obj)
 {
-    char c;
-    os.read(&c, 1);
+    json_read_char(os);
 
     std::string more_items;
     while (true)
     {
-        std::getline(os, more_items, '}');
-        os.seekg(-long(more_items.size() + 1), os.cur);
-        os.read(&c, 1);
-        std::string key;
-        std::getline(os, key, '\"');
-        os.read(&c, 1);
+        more_items = json_read_until(os, '}');
+        json_go_back(os, more_items.size() + 1);
+        json_read_char(os);
+        std::string key = json_read_until(os, '\"');
+        json_read_char(os);
 
         JsonItem ji;
         os >> ji;
         obj._map[key] = ji;
 
-        os.read(&c, 1);
-        if (c == '}')
+        if (json_read_char(os) == '}')
         {
             break;
         }
         else
         {
-            os.seekg(-1, os.cur);
+            json_go_back(os, 1);
         }
     }
 
-    if (!os.eof())
-    {
-        os.read(&c, 1);
-        if (c != ',') os.seekg(-1, os.cur);
-    }
+    json_skip_separator(os);
     return os;
 }
 
@@ -1629,9 +1671,8 @@ inline std::ostream& operator<<(std::ostream& os, const JsonItem& obj)
 
 inline std::istream& operator>>(std::istream& os, JsonItem& obj)
 {
-    char c;
-    os.read(&c, 1);
-    os.seekg(-1, os.cur);
+    char c = json_read_char(os);
+    json_go_back(os, 1);
     switch(c)
     {
         case '[':
-- 
2.43.0


From 85c580bd08d56670ac884f247880345c115ff5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 10/30] fix: empty JSON lists and objects did not read back as
 empty

---
 source/parser/json.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 54c5b8a..74871a3 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1593,6 +1593,12 @@ inline std::ostream& operator<<(std::ostream& os, const JsonList& obj)
 inline std::istream& operator>>(std::istream &os, JsonList& obj)
 {
     json_read_char(os);
+    if (json_read_char(os) == ']')
+    {
+        json_skip_separator(os);
+        return os;
+    }
+    json_go_back(os, 1);
 
     std::string more_items;
     while (true) {
@@ -1635,6 +1641,12 @@ inline std::ostream& operator<<(std::ostream& os, const JsonDict& obj)
 inline std::istream& operator>>(std::istream& os, JsonDict& obj)
 {
     json_read_char(os);
+    if (json_read_char(os) == '}')
+    {
+        json_skip_separator(os);
+        return os;
+    }
+    json_go_back(os, 1);
 
     std::string more_items;
     while (true)
-- 
2.43.0


From 36d7ce7e514dba7f1293ea1e7911567225bb1cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:10 +0000
Subject: [PATCH 11/30] fix: a list closed by '}' in a damaged JSON document
 was read for ever

---
 source/parser/json.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 74871a3..44f2cb4 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1608,10 +1608,15 @@ inline std::istream& operator>>(std::istream &os, JsonList& obj)
         os >> ji;
         obj._list.push_back(ji);
 
-        if (json_read_char(os) == ']')
+        char c = json_read_char(os);
+        if (c == ']')
         {
             break;
         }
+        else if (c == '}')
+        {
+            throw std::runtime_error("JSON malformed: unexpected '}' in list");
+        }
         else
         {
             json_go_back(os, 1);
-- 
2.43.0


From 7cbed9bcb527b918446ff07a6b92a971dfe8ac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:15 +0000
Subject: [PATCH 12/30] fix: a random device returning zero gave a seed that
 reproduces nothing

---
 source/dnn/model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/dnn/model.cpp b/source/dnn/model.cpp
index a575b10..a3d285a 100644
--- a/source/dnn/model.cpp
+++ b/source/dnn/model.cpp
@@ -110,6 +110,8 @@ RneType::result_type Model::init(InitializationFunction init,
         // Generate a new random seed from the host random device.
         std::random_device rd{};
         seed = rd();
+        // Zero means "no seed": it would not reproduce this initialization.
+        if (seed == 0) seed = RneType::default_seed;
     }
     // std::cout << "Initializing model parameters with seed: " << seed << "\n";
 
-- 
2.43.0


From 206fcd7486b979d8b51ea65016db2aa5c72ef9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:17 +0000
Subject: [PATCH 13/30] fix: fitting again with another batch size scaled
 gradients by the first one

---
 source/dnn/loss.cpp       | 10 ++++++++--
 source/dnn/loss.hpp       |  6 ++++++
 source/middleware/fnn.hpp |  4 ++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/source/dnn/loss.cpp b/source/dnn/loss.cpp
index 5b30ebf..be0a672 100644
--- a/source/dnn/loss.cpp
+++ b/source/dnn/loss.cpp
@@ -39,15 +39,21 @@ LossLayer::LossLayer(
     , _loss{}
     , _target{}
     , _gradients{}
-    , _inv_batch_size{
-        NumType{1.0} / static_cast<NumType>(std::max(batch_size, SizeType{1}))}
+    , _inv_batch_size{}
     , _cumulative_loss{0.0}
     , _correct{0}
     , _incorrect{0}
 {
+    this->batch_size(batch_size);
     _gradients.resize(input_size);
 }
 
+void LossLayer::batch_size(SizeType batch_size)
+{
+    _inv_batch_size =
+        NumType{1.0} / static_cast<NumType>(std::max(batch_size, SizeType{1}));
+}
+
 void LossLayer::set_target(const std::vector<NumType>& target)
 {
     _target = target;
diff --git a/source/dnn/loss.hpp b/source/dnn/loss.hpp
index 2b0220e..e4319ad 100644
--- a/source/dnn/loss.hpp
+++ b/source/dnn/loss.hpp
@@ -115,6 +115,12 @@ public:
      */
     void set_target(const std::vector<NumType>& target);
 
+    /**
+     * \brief Setter of the batch size the loss gradients are scaled with.
+     * \param batch_size
+     */
+    void batch_size(SizeType batch_size);
+
     /**
      * \brief Calculate and return the accuracy until the last forward
      * iteration.
diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 0e5ee92..0cabdf3 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -249,6 +249,10 @@ public:
                 _m.create_loss_edge(output_layer, loss_layer);
             }
         }
+        for (const auto& loss_layer: _m.loss_layers())
+        {
+            loss_layer->batch_size(batch_size);
+        }
 
         // Train.
         _m.init(MapInit<Framework::EDGE_LEARNING, IT>::type,
-- 
2.43.0


From 9f9afdaa1a53594515d6863df1a52eac98615f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:00 +0000
Subject: [PATCH 14/30] fix: a fit that ran out of memory while adding the loss
 left a network that crashes

---
 source/dnn/dlgraph.cpp    | 12 ++++++++++++
 source/dnn/dlgraph.hpp    |  7 +++++++
 source/dnn/model.cpp      |  2 +-
 source/dnn/model.hpp      | 14 +++++++++++++-
 source/middleware/fnn.hpp |  9 ++++++---
 5 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/source/dnn/dlgraph.cpp b/source/dnn/dlgraph.cpp
index 3c95613..c076089 100644
--- a/source/dnn/dlgraph.cpp
+++ b/source/dnn/dlgraph.cpp
@@ -79,6 +79,18 @@ DLGraph& DLGraph::operator=(const DLGraph& obj)
     return *this;
 }
 
+void DLGraph::swap(DLGraph& obj) noexcept
+{
+    // Each graph keeps referring to the layers of its own object.
+    _layers.swap(obj._layers);
+    _forward_graph._edges.swap(obj._forward_graph._edges);
+    _training_forward_graph._edges.swap(obj._training_forward_graph._edges);
+    _backward_graph._edges.swap(obj._backward_graph._edges);
+    _loss_layers_idx.swap(obj._loss_layers_idx);
+    _input_layers_idx.swap(obj._input_layers_idx);
+    _output_layers_idx.swap(obj._output_layers_idx);
+}
+
 void DLGraph::add_node(std::shared_ptr<Layer> layer)
 {
     if (std::find(_layers.begin(), _layers.end(), layer)
diff --git a/source/dnn/dlgraph.hpp b/source/dnn/dlgraph.hpp
index 7a49504..803c572 100644
--- a/source/dnn/dlgraph.hpp
+++ b/source/dnn/dlgraph.hpp
@@ -158,6 +158,13 @@ public:
 
     DLGraph& operator=(const DLGraph& obj);
 
+    /**
+     * \brief Swap method of DLGraph object: it moves the layers themselves and
+     * never fails.
+     * \param obj The DLGraph object to swap with.
+     */
+    void swap(DLGraph& obj) noexcept;
+
     void add_node(std::shared_ptr<Layer> layer);
 
     void add_edge(std::shared_ptr<Layer> from, std::shared_ptr<Layer> to);
diff --git a/source/dnn/model.cpp b/source/dnn/model.cpp
index a3d285a..d84d821 100644
--- a/source/dnn/model.cpp
+++ b/source/dnn/model.cpp
@@ -57,7 +57,7 @@ Model& Model::operator=(Model obj)
     return *this;
 }
 
-void swap(Model& lop, Model& rop)
+void swap(Model& lop, Model& rop) noexcept
 {
     using std::swap;
     swap(lop._shared_fields, rop._shared_fields);
diff --git a/source/dnn/model.hpp b/source/dnn/model.hpp
index 062a262..f5a1a54 100644
--- a/source/dnn/model.hpp
+++ b/source/dnn/model.hpp
@@ -88,6 +88,18 @@ public:
             backward_run = graph.backward_run();
         }
 
+        friend void swap(State& lop, State& rop) noexcept
+        {
+            lop.graph.swap(rop.graph);
+            lop.layers.swap(rop.layers);
+            lop.input_layers.swap(rop.input_layers);
+            lop.output_layers.swap(rop.output_layers);
+            lop.loss_layers.swap(rop.loss_layers);
+            lop.training_forward_run.swap(rop.training_forward_run);
+            lop.forward_run.swap(rop.forward_run);
+            lop.backward_run.swap(rop.backward_run);
+        }
+
         DLGraph graph;
         std::vector<Layer::SharedPtr> layers;
         std::vector<Layer::SharedPtr> input_layers;
@@ -135,7 +147,7 @@ public:
      * \param lop Left operand Model object.
      * \param rop Right operand Model object.
      */
-    friend void swap(Model& lop, Model& rop);
+    friend void swap(Model& lop, Model& rop) noexcept;
 
     /**
      * \brief Append a layer to the model, forward its parameters to the layer 
diff --git a/source/middleware/fnn.hpp b/source/middleware/fnn.hpp
index 0cabdf3..6e9a3d2 100644
--- a/source/middleware/fnn.hpp
+++ b/source/middleware/fnn.hpp
@@ -242,12 +242,15 @@ public:
         {
             using LossLayerType = typename MapLoss<Framework::EDGE_LEARNING, LT>::type;
             auto loss_layer_name = MapLoss<Framework::EDGE_LEARNING, LT>::name;
-            for (auto output_layer: _m.output_layers())
+            // Completed aside: on failure the network remains as it is.
+            Model m(_m);
+            for (auto output_layer: m.output_layers())
             {
-                auto loss_layer = _m.add_loss<LossLayerType>(
+                auto loss_layer = m.add_loss<LossLayerType>(
                     loss_layer_name, output_layer->output_size(), batch_size);
-                _m.create_loss_edge(output_layer, loss_layer);
+                m.create_loss_edge(output_layer, loss_layer);
             }
+            swap(_m, m);
         }
         for (const auto& loss_layer: _m.loss_layers())
         {
-- 
2.43.0


From 96690b8b48b1b106cfa28f693cfb8de54058ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:09 +0000
Subject: [PATCH 15/30] fix: gradients left by a failed fit were applied by the
 next one

---
 source/dnn/model.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/dnn/model.cpp b/source/dnn/model.cpp
index d84d821..c5ff681 100644
--- a/source/dnn/model.cpp
+++ b/source/dnn/model.cpp
@@ -119,6 +119,13 @@ RneType::result_type Model::init(InitializationFunction init,
     for (const auto& layer_idx: _state.graph.forward_layers_idx())
     {
         auto layer = _state.layers[layer_idx];
+
+        // Forget the gradients accumulated by steps that were never trained.
+        for (SizeType i = 0; i < layer->param_count(); ++i)
+        {
+            layer->gradient(i) = NumType{0.0};
+        }
+
         switch (init)
         {
             case InitializationFunction::KAIMING:
-- 
2.43.0


From 06505005ff340a718deb25ecc71d715efcb77b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:54 +0000
Subject: [PATCH 16/30] fix: release the scratch memory of a recurrent layer
 when a step fails

---
 source/dnn/recurrent.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/source/dnn/recurrent.cpp b/source/dnn/recurrent.cpp
index 073d064..cbb878d 100644
--- a/source/dnn/recurrent.cpp
+++ b/source/dnn/recurrent.cpp
@@ -122,7 +122,7 @@ const std::vector<NumType>& RecurrentLayer::forward(
     SizeType curr_hs_idx;         //< Current hidden state index.
     SizeType next_hs_idx;         //< Next hidden state index.
 
-    auto *tmp_mul = new NumType[_hidden_size];
+    std::vector<NumType> tmp_mul(_hidden_size);
 
     // Loop the time sequences.
     for (SizeType t = 0; t < _time_steps; ++t)
@@ -145,13 +145,13 @@ const std::vector<NumType>& RecurrentLayer::forward(
          * hidden_to_hidden weights and the sum with the to_hidden bias.
          * h(t+1) += W_hh * h(t) + b_h
          */
-        DLMath::matarr_mul<NumType>(tmp_mul, _weights_h_to_h.data(),
+        DLMath::matarr_mul<NumType>(tmp_mul.data(), _weights_h_to_h.data(),
             _hidden_state.data() + curr_hs_idx * _hidden_size, 
             _hidden_size, _hidden_size);
         DLMath::arr_sum<NumType>(
             _hidden_state.data() + next_hs_idx * _hidden_size,
             _hidden_state.data() + next_hs_idx * _hidden_size,
-            tmp_mul, _hidden_size);
+            tmp_mul.data(), _hidden_size);
         DLMath::arr_sum<NumType>(
             _hidden_state.data() + next_hs_idx * _hidden_size,
             _hidden_state.data() + next_hs_idx * _hidden_size,
@@ -209,8 +209,6 @@ const std::vector<NumType>& RecurrentLayer::forward(
             _biases_to_o.data(), _shared_fields->output_size());
     }
 
-    delete[] tmp_mul;
-
     return Layer::forward(_output_activations);
 }
 
@@ -223,7 +221,7 @@ const std::vector<NumType>& RecurrentLayer::backward(
 
     std::vector<NumType> next_hidden_state(
         static_cast<std::size_t>(_hidden_size), NumType{0.0});
-    auto *tmp_mul = new NumType[_hidden_size];
+    std::vector<NumType> tmp_mul(_hidden_size);
 
     // Loop the gradient sequences in reverse.
     for (SizeType t = _time_steps; t > 0; --t)
@@ -261,8 +259,8 @@ const std::vector<NumType>& RecurrentLayer::backward(
             }
         }
         DLMath::arr_sum(
-            tmp_mul, 
-            tmp_mul, 
+            tmp_mul.data(), 
+            tmp_mul.data(), 
             next_hidden_state.data(), _hidden_size);
 
         // Calculate gradient of hidden activation and put in next_hidden_state.
@@ -293,7 +291,7 @@ const std::vector<NumType>& RecurrentLayer::backward(
             }
         }
         DLMath::arr_mul<NumType>(next_hidden_state.data(), 
-            next_hidden_state.data(), tmp_mul, _hidden_size);
+            next_hidden_state.data(), tmp_mul.data(), _hidden_size);
 
         // Bias gradient to hidden.
         DLMath::arr_sum<NumType>(
@@ -347,12 +345,9 @@ const std::vector<NumType>& RecurrentLayer::backward(
                     * next_hidden_state[i];
             }
         }
-        next_hidden_state = std::vector<NumType>(tmp_mul, 
-            tmp_mul + _hidden_size);
+        next_hidden_state = tmp_mul;
     }
 
-    delete[] tmp_mul;
-
     return Layer::backward(_input_gradients);
 }
 
-- 
2.43.0


From d8bfb88dc46c16a3c10c29afa469bfcac10d27a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:41 +0000
Subject: [PATCH 17/30] fix: measure durations with a clock that the wall clock
 does not move

---
 profile/stopwatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile/stopwatch.hpp b/profile/stopwatch.hpp
index 21ae8cc..5ae5862 100644
--- a/profile/stopwatch.hpp
+++ b/profile/stopwatch.hpp
@@ -47,7 +47,7 @@ using Nanoseconds = std::chrono::nanoseconds;
 
 template<class D> class Stopwatch {
 public:
-    using ResolutionType = std::chrono::high_resolution_clock;
+    using ResolutionType = std::chrono::steady_clock;
     using TimePointType = std::chrono::time_point<ResolutionType>;
     using DurationVecType = std::vector<double>;
 
-- 
2.43.0


From 00d6704424f4130afd8aa870497716c91063274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:41 +0000
Subject: [PATCH 18/30] fix: report a dump of durations that could not be
 written

---
 profile/stopwatch.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profile/stopwatch.hpp b/profile/stopwatch.hpp
index 5ae5862..45fd5ad 100644
--- a/profile/stopwatch.hpp
+++ b/profile/stopwatch.hpp
@@ -131,6 +131,7 @@ public:
             f.open(path);
             f << header << std::endl;
             f.close();
+            if (f.fail()) throw std::runtime_error("dump file write error");
         }
 
         f.open(path, std::ofstream::out | std::ofstream::app);
@@ -143,6 +144,7 @@ public:
             f << _durations[i] << std::endl;
         }
         f.close();
+        if (f.fail()) throw std::runtime_error("dump file write error");
     }
 
 private:
-- 
2.43.0


From 5f3bc44c89ff18d52a1447db9a2ccba51571ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:41 +0000
Subject: [PATCH 19/30] fix: keep the durations of a failed profile out of the
 next one

---
 profile/profile.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/profile/profile.hpp b/profile/profile.hpp
index 450ff97..ab6d219 100644
--- a/profile/profile.hpp
+++ b/profile/profile.hpp
@@ -121,6 +121,7 @@ public:
         SizeType num_tries, std::string profile_name)
     {
         std::cout << msg << std::endl;
+        _sw.reset(); // Left over by a profile that failed.
         profile(std::move(function), num_tries);
         std::cout << "completed " << _pretty_print() << std::endl;
         std::string fn(profile_name + ".csv");
-- 
2.43.0


From 661267b745cc4f060d023489cf8ea5efad70f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:40 +0000
Subject: [PATCH 20/30] fix: report a CSV file without rows instead of dividing
 by zero

Indexing took the index modulo the number of rows, and the number of entries
wrapped around, when the file is empty or its header line is not complete.
---
 source/parser/csv.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index 7533b8a..e3ce298 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -753,13 +753,19 @@ public:
      * \brief Get a CSVRow at the index row specified.
      * \param idx The index row.
      * \return CSVRow The requested row.
+     * Throws a std::runtime_error if the CSV file has no rows.
      */
     CSVRow operator[](std::size_t idx)
     {
-        // Manage row saved in cache.
-        if (_row_cache.idx() == idx) return _row_cache;
+        if (_rows_amount == 0)
+        {
+            throw std::runtime_error("CSV bad format: no rows");
+        }
+
         // Handle overflow with a circular indexing.
         idx = idx % _rows_amount; 
+        // Manage row saved in cache.
+        if (_row_cache.idx() == idx) return _row_cache;
 
         auto file = std::ifstream{_fn};
         // file.seekg(_row_header._line.size() + 1);
@@ -915,7 +921,7 @@ public:
 
     SizeType entries_amount() const override
     {
-        return rows_size() - 1;
+        return rows_size() > 0 ? rows_size() - 1 : 0;
     }
 
     SizeType feature_size() const override
-- 
2.43.0


From 212978d21a98e73c6be7113a0ddfbcec4de01c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:37 +0000
Subject: [PATCH 21/30] fix: classify long fields without recursive regular
 expressions

std::regex recurs over the characters of a field, so that a long quoted or
numeric field overflowed the stack while the types of a CSV file were
detected.
---
 source/parser/csv.hpp          |  1 +
 source/parser/type_checker.hpp | 64 +++++++++++++++++++++++++---------
 2 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/source/parser/csv.hpp b/source/parser/csv.hpp
index e3ce298..a39da91 100644
--- a/source/parser/csv.hpp
+++ b/source/parser/csv.hpp
@@ -37,6 +37,7 @@
 #include <fstream>
 #include <vector>
 #include <iostream>
+#include <algorithm>
 #include <limits>
 #include <stdexcept>
 #include <iterator>
diff --git a/source/parser/type_checker.hpp b/source/parser/type_checker.hpp
index 831e2f9..30d372e 100644
--- a/source/parser/type_checker.hpp
+++ b/source/parser/type_checker.hpp
@@ -32,29 +32,65 @@
 #include <string>
 #include <sstream>
 #include <vector>
-#include <regex>
 
 namespace EdgeLearning {
 
 /**
- * \brief Regex to detect float values in string.
+ * \brief Scan the decimal digits of a string.
+ * \param s The string to scan.
+ * \param i The index of the first character to scan.
+ * \return The index of the first character that is not a digit.
  */
-const std::regex _float_regex   { "^[-+]?[0-9]*\\.?[0-9]+([eE][-+]?[0-9]+)?$" };
+inline std::size_t skip_digits(const std::string& s, std::size_t i)
+{
+    while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
+    return i;
+}
 
 /**
- * \brief Regex to detect int values in string.
+ * \brief Scan the sign of a number, if any.
+ * \param s The string to scan.
+ * \param i The index of the first character to scan.
+ * \return The index of the first character after the sign.
  */
-const std::regex _integer_regex { "^[-+]?(0|[1-9][0-9]*)$" };
+inline std::size_t skip_sign(const std::string& s, std::size_t i)
+{
+    return i < s.size() && (s[i] == '-' || s[i] == '+') ? i + 1 : i;
+}
 
 /**
- * \brief Regex to detect bool values in string.
+ * \brief Detect float values in string: an optional sign, digits with an
+ * optional point that does not end them, and an optional exponent.
+ * A regular expression is not used in order not to recur over the characters
+ * of a field as long as its file wants.
  */
-const std::regex _boolean_regex { "^(true|false)$" };
+inline bool match_float(const std::string& s)
+{
+    auto begin = skip_sign(s, 0);
+    auto i = skip_digits(s, begin);
+    if (i < s.size() && s[i] == '.') begin = i + 1;
+    i = skip_digits(s, begin);
+    if (i == begin) return false;
+    if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
+    {
+        begin = skip_sign(s, i + 1);
+        i = skip_digits(s, begin);
+        if (i == begin) return false;
+    }
+    return i == s.size();
+}
 
 /**
- * \brief Regex to detect strings
+ * \brief Detect int values in string: an optional sign and digits without
+ * leading zeros.
  */
-const std::regex _string_regex  { "^\".*\"$" };
+inline bool match_integer(const std::string& s)
+{
+    auto begin = skip_sign(s, 0);
+    auto end = skip_digits(s, begin);
+    return end == s.size() && end > begin
+        && (s[begin] != '0' || end == begin + 1);
+}
 
 /**
  * \brief Convert a string in the templated type T and put the result in the
@@ -274,19 +310,15 @@ public:
             return TypeChecker::Type::NONE;
         }
 
-        if (std::regex_match(field, _string_regex))
-        {
-            return TypeChecker::Type::STRING;
-        }
-        else if (std::regex_match(field, _boolean_regex))
+        if (field == "true" || field == "false")
         {
             return TypeChecker::Type::BOOL;
         }
-        else if (std::regex_match(field, _integer_regex))
+        else if (match_integer(field))
         {
             return TypeChecker::Type::INT;
         }
-        else if (std::regex_match(field, _float_regex))
+        else if (match_float(field))
         {
             return TypeChecker::Type::FLOAT;
         }
-- 
2.43.0


From 5d599186ee621020670e79a9d7fa2d61200d8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:37 +0000
Subject: [PATCH 22/30] fix: let dropout pass the input on when predicting

The output of a dropout layer stayed what the last training step had left,
so predictions of networks with dropout did not depend on their input.
---
 source/dnn/dropout.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/dnn/dropout.hpp b/source/dnn/dropout.hpp
index a4dd2b6..ce36d6e 100644
--- a/source/dnn/dropout.hpp
+++ b/source/dnn/dropout.hpp
@@ -31,6 +31,7 @@
 
 #include "feedforward.hpp"
 
+#include <algorithm>
 #include <string>
 #include <vector>
 
@@ -71,7 +72,9 @@ public:
         const std::vector<NumType>& inputs) override
     {
         _last_input = inputs.data();
-        return FeedforwardLayer::forward(inputs);
+        // The input goes on unchanged; it is what last_output() gives.
+        std::copy_n(inputs.begin(), output_size(), _output_activations.begin());
+        return FeedforwardLayer::forward(_output_activations);
     }
 
     /**
-- 
2.43.0


From d1b59fdf2c49de4e49d9d579e4976f217a710cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:37 +0000
Subject: [PATCH 23/30] fix: complete the compilation of a dynamic network
 aside

A compilation that ran out of memory left a network without some of its
layers, which was trained and used as if it were complete.
---
 source/middleware/nn.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/source/middleware/nn.hpp b/source/middleware/nn.hpp
index b7cc2d4..4084049 100644
--- a/source/middleware/nn.hpp
+++ b/source/middleware/nn.hpp
@@ -240,41 +240,41 @@ public:
                  OptimizerType optimizer = OptimizerType::ADAM,
                  InitType init = InitType::AUTO) override
     {
-        _optimizer = optimizer;
-        _loss = loss;
+        // Completed aside: on failure the network remains as it is.
+        typename StaticNeuralNetwork<T>::SharedPtr model_ptr;
         if (loss == LossType::MSE && init == InitType::HE_INIT)
         {
-            _model_ptr = std::make_shared<
+            model_ptr = std::make_shared<
                 typename MM<F, LossType::MSE, InitType::HE_INIT, PL, T>::type>(
                 CompileNeuralNetwork<T>::_name);
         }
         else if (loss == LossType::MSE && init == InitType::XAVIER_INIT)
         {
-            _model_ptr = std::make_shared<
+            model_ptr = std::make_shared<
                 typename MM<F, LossType::MSE, InitType::XAVIER_INIT, PL, T>::type>(
                 CompileNeuralNetwork<T>::_name);
         }
         else if (loss == LossType::MSE && init == InitType::AUTO)
         {
-            _model_ptr = std::make_shared<
+            model_ptr = std::make_shared<
                 typename MM<F, LossType::MSE, InitType::AUTO, PL, T>::type>(
                 CompileNeuralNetwork<T>::_name);
         }
         else if (loss == LossType::CCE && init == InitType::HE_INIT)
         {
-            _model_ptr = std::make_shared<
+            model_ptr = std::make_shared<
                 typename MM<F, LossType::CCE, InitType::HE_INIT, PL, T>::type>(
                 CompileNeuralNetwork<T>::_name);
         }
         else if (loss == LossType::CCE && init == InitType::XAVIER_INIT)
         {
-            _model_ptr = std::make_shared<
+            model_ptr = std::make_shared<
                 typename MM<F, LossType::CCE, InitType::XAVIER_INIT, PL, T>::type>(
                 CompileNeuralNetwork<T>::_name);
         }
         else if (loss == LossType::CCE && init == InitType::AUTO)
         {
-            _model_ptr = std::make_shared<
+            model_ptr = std::make_shared<
                 typename MM<F, LossType::CCE, InitType::AUTO, PL, T>::type>(
                 CompileNeuralNetwork<T>::_name);
         }
@@ -285,8 +285,12 @@ public:
 
         for (const auto& l: _layers)
         {
-            _model_ptr->add(l);
+            model_ptr->add(l);
         }
+
+        _model_ptr = model_ptr;
+        _optimizer = optimizer;
+        _loss = loss;
     }
 
     Dataset<T> predict(Dataset<T>& data) override
-- 
2.43.0


From 3daa78d52ed485654917bde06579a269ae32f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:50 +0000
Subject: [PATCH 24/30] fix: a JSON list or object converted to text is cut
 short when memory runs out

---
 source/parser/json.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index 44f2cb4..a8b97ca 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1799,6 +1799,7 @@ inline JsonLeaf::operator std::string() const
 inline JsonList::operator std::string() const
 {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // Do not hide an allocation failure.
     ss << *this;
     return ss.str();
 }
@@ -1806,6 +1807,7 @@ inline JsonList::operator std::string() const
 inline JsonDict::operator std::string() const
 {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // Do not hide an allocation failure.
     ss << *this;
     return ss.str();
 }
-- 
2.43.0


From 198e4086986a78aca8dc5e112276a3e6be2a0e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:50 +0000
Subject: [PATCH 25/30] fix: comparing an empty JSON item dereferences a null
 pointer

---
 source/parser/json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index a8b97ca..e5b3616 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1788,6 +1788,7 @@ inline bool JsonDict::operator==(const JsonDict& rhs) const
 
 inline bool JsonItem::operator==(const JsonItem& rhs) const
 {
+    if (!_value || !rhs._value) return _value == rhs._value;
     return *_value == *rhs._value;
 }
 
-- 
2.43.0


From 6ecdccc136817613f00225aac498b09076b8d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:50 +0000
Subject: [PATCH 26/30] fix: an empty JSON item that could not become a
 container no longer says it is one

---
 source/parser/json.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/parser/json.hpp b/source/parser/json.hpp
index e5b3616..6e5df2e 100644
--- a/source/parser/json.hpp
+++ b/source/parser/json.hpp
@@ -1261,8 +1261,8 @@ inline JsonItem& JsonItem::operator[](std::string key)
 {
     if (!_value || _json_type == JsonObject::JsonType::NONE)
     {
-        _json_type = JsonObject::JsonType::DICT;
         _value = std::make_shared<JsonDict>();
+        _json_type = JsonObject::JsonType::DICT;
     }
     switch(_value->json_type())
     {
@@ -1342,8 +1342,8 @@ inline void JsonItem::append(JsonItem ji)
 {
     if (!_value || _json_type == JsonObject::JsonType::NONE)
     {
-        _json_type = JsonObject::JsonType::LIST;
         _value = std::make_shared<JsonList>();
+        _json_type = JsonObject::JsonType::LIST;
     }
     switch(_value->json_type())
     {
-- 
2.43.0


From 8546559bbac7d2aaf60196c48d918401e32f9a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:21 +0000
Subject: [PATCH 27/30] fix: a dataset of rows counts entries beyond its last
 whole sequence that it does not hold

---
 source/data/dataset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index b1ea7ea..0f8802c 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -174,7 +174,8 @@ public:
         }
         _sequence_amount = _feature_amount 
             / std::max(_sequence_size, SizeType(1));
-        _dataset_size = _sequence_amount * _sequence_size * _feature_size;
+        _feature_amount = _sequence_amount * _sequence_size;
+        _dataset_size = _feature_amount * _feature_size;
         _data.resize(_dataset_size);
 
         // Init indexes set.
-- 
2.43.0


From c3356804e7e09a12e86891ecdf621947c06ae018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:21 +0000
Subject: [PATCH 28/30] fix: setting the sequence size of an empty dataset
 divides by zero

---
 source/data/dataset.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 0f8802c..9b264b5 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -341,9 +341,10 @@ public:
     void sequence_size(SizeType s)
     {
         _sequence_size = std::min(s, _feature_amount);
-        _sequence_amount = _feature_amount / _sequence_size;
+        _sequence_amount = _feature_amount
+            / std::max(_sequence_size, SizeType(1));
         _dataset_size = _sequence_size * _sequence_amount * _feature_size;
-        _feature_amount = _dataset_size / _feature_size;
+        _feature_amount = _sequence_size * _sequence_amount;
         _data.resize(_dataset_size);
     }
     const SizeType& sequence_size() const { return _sequence_size; };
-- 
2.43.0


From 0d46acaf7e6c2c49add9e3ee922874b15b55f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:21 +0000
Subject: [PATCH 29/30] fix: label and input columns of a dataset disagree when
 memory runs out while they are set

---
 source/data/dataset.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index 9b264b5..d1b20c5 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -469,19 +469,20 @@ public:
      */
     void label_idx(std::set<SizeType> set)
     { 
-        _labels_idx = set;
-        for (auto it = _labels_idx.begin(); it != _labels_idx.end(); )
+        for (auto it = set.begin(); it != set.end(); )
         {
-            if (*it >= _feature_size) _labels_idx.erase(it++); else ++it;
+            if (*it >= _feature_size) set.erase(it++); else ++it;
         }
-        _input_idx.clear();
+        std::set<SizeType> inputs;
         for (SizeType idx_val = 0; idx_val < _feature_size; ++idx_val)
         {
-            if (_labels_idx.find(idx_val) == _labels_idx.end())
+            if (set.find(idx_val) == set.end())
             {
-                _input_idx.insert(idx_val);
+                inputs.insert(idx_val);
             }
         }
+        _labels_idx.swap(set);
+        _input_idx.swap(inputs);
     }
 
     /**
-- 
2.43.0


From b0497edd8716a2e2a77e963281a2c8eb00eacff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:21 +0000
Subject: [PATCH 30/30] fix: a dataset is half assigned when memory runs out

---
 source/data/dataset.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/source/data/dataset.hpp b/source/data/dataset.hpp
index d1b20c5..7280cfe 100644
--- a/source/data/dataset.hpp
+++ b/source/data/dataset.hpp
@@ -261,6 +261,31 @@ public:
      */
     ~Dataset() = default;
 
+    /**
+     * \brief Copy constructor.
+     * \param obj The dataset to copy.
+     */
+    Dataset(const Dataset& obj) = default;
+
+    /**
+     * \brief Assignment operator.
+     * \param obj The dataset to take the place of this one, which stays as it
+     * is if there is no memory for the copy.
+     * \return Dataset& This dataset.
+     */
+    Dataset& operator=(Dataset obj) noexcept
+    {
+        _data.swap(obj._data);
+        _feature_size = obj._feature_size;
+        _sequence_size = obj._sequence_size;
+        _dataset_size = obj._dataset_size;
+        _feature_amount = obj._feature_amount;
+        _sequence_amount = obj._sequence_amount;
+        _labels_idx.swap(obj._labels_idx);
+        _input_idx.swap(obj._input_idx);
+        return *this;
+    }
+
 #if ENABLE_MLPACK
     /**
      * \brief Convert the dataset in Armadillo Vector.
-- 
2.43.0

