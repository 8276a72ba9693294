From b1c5cdf13a06289b209ad9ae04f438ee6bd76357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:29 +0000
Subject: [PATCH 01/31] fix: clear the inliers before the pass-through path of
 two filters fills them

Calling Filter() twice on one input listed every index twice.
---
 pre_processors/filter_axis_range.cc    | 1 +
 pre_processors/filter_random_sample.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pre_processors/filter_axis_range.cc b/pre_processors/filter_axis_range.cc
index f25513c..0426464 100644
--- a/pre_processors/filter_axis_range.cc
+++ b/pre_processors/filter_axis_range.cc
@@ -50,6 +50,7 @@ void AxisRange::Filter(const data::InnerCloudType::Ptr& cloud) {
   if (min_ == -std::numeric_limits<float>::max() &&
       max_ == std::numeric_limits<float>::max()) {
     *cloud = *this->inner_cloud_;
+    this->inliers_.clear();
     for (int i = 0; i < this->inner_cloud_->points.size(); ++i) {
       this->inliers_.push_back(i);
     }
diff --git a/pre_processors/filter_random_sample.cc b/pre_processors/filter_random_sample.cc
index 5c5c68d..1e1797f 100644
--- a/pre_processors/filter_random_sample.cc
+++ b/pre_processors/filter_random_sample.cc
@@ -43,6 +43,7 @@ void RandomSampler::Filter(const data::InnerCloudType::Ptr& cloud) {
   }
   if (sampling_rate_ > 0.999) {
     *cloud = *this->inner_cloud_;
+    this->inliers_.clear();
     for (int i = 0; i < this->inner_cloud_->points.size(); ++i) {
       this->inliers_.push_back(i);
     }
-- 
2.43.0


From 06ca9b8981162d7fe1925f994547cf0aa7594190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:04 +0000
Subject: [PATCH 02/31] fix: report a point cut short by the end of the file as
 a failed read

---
 builder/data/cloud_types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 67bc517..27541b6 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -155,7 +155,7 @@ int InnerPointType::Serialize(std::fstream* stream) const {
 int InnerPointType::Deserialize(std::fstream* stream) {
   if (stream && stream->is_open()) {
     stream->read(reinterpret_cast<char*>(this), sizeof(InnerPointType));
-    if (stream->good() || stream->eof()) {
+    if (stream->good()) {
       return sizeof(InnerPointType);
     } else {
       return -1;
-- 
2.43.0


From c4b9bd60624369242111549b40e3eb74c03e7d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:04 +0000
Subject: [PATCH 03/31] fix: stop when a cloud cannot be read back from disk

---
 builder/data/cloud_types.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 27541b6..1eb0719 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -446,7 +446,8 @@ bool InnerPointCloudData::CloudInMemory() {
     InnerCloudType::Ptr inner_cloud(new InnerCloudType);
     std::fstream bin_fs(filename_, std::ios::in | std::ios::binary);
     CHECK(bin_fs.is_open()) << "Could not open file: " << filename_;
-    inner_cloud->Deserialize(&bin_fs);
+    CHECK_GE(inner_cloud->Deserialize(&bin_fs), 0)
+        << "Could not read cloud from file: " << filename_;
     bin_fs.close();
 
     SetInnerCloudImpl(inner_cloud);
-- 
2.43.0


From 2ca802ed672d22ff58a0c8e6730021b8da64f135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:04 +0000
Subject: [PATCH 04/31] fix: report clouds that could not be written completely

---
 builder/data/cloud_types.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 1eb0719..09e0734 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -147,7 +147,7 @@ void BuildNormals(EigenPointCloud* const data, const int first, const int last,
 int InnerPointType::Serialize(std::fstream* stream) const {
   if (stream && stream->is_open()) {
     stream->write(reinterpret_cast<const char*>(this), sizeof(InnerPointType));
-    return sizeof(InnerPointType);
+    return stream->good() ? static_cast<int>(sizeof(InnerPointType)) : -1;
   }
   return -1;
 }
@@ -186,9 +186,11 @@ int InnerCloudType::Serialize(std::fstream* stream) const {
     stream->write(reinterpret_cast<const char*>(&size), sizeof(size_t));
     // Write points.
     for (const auto& point : points) {
-      point.Serialize(stream);
+      if (point.Serialize(stream) < 0) {
+        return -1;
+      }
     }
-    return 0;
+    return stream->good() ? 0 : -1;
   }
   return -1;
 }
@@ -435,6 +437,7 @@ bool InnerPointCloudData::SaveToFile(const std::string& filename) {
   CHECK(of.is_open()) << "Could not open file: " << filename_;
   CHECK_GE(inner_cloud_->Serialize(&of), 0);
   of.close();
+  CHECK(of.good()) << "Could not write file: " << filename_;
   return true;
 }
 
-- 
2.43.0


From 30e95db2c8d62e54d484894e3de93d0f14db2459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:26:26 +0000
Subject: [PATCH 05/31] fix: decide on releasing a submap cloud only while no
 reader is inside

---
 builder/submap.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/submap.cc b/builder/submap.cc
index c643af4..9c95210 100644
--- a/builder/submap.cc
+++ b/builder/submap.cc
@@ -226,10 +226,12 @@ bool Submap::UpdateInactiveTime(const int update_time_in_sec) {
     return true;
   }
 
+  // Cloud() restarts the time under the read lock, so the decision has to be
+  // made with all readers out.
   boost::upgrade_lock<ReadWriteMutex> locker(mutex_);
+  WriteMutexLocker write_locker(locker);
   cloud_inactive_time_ += update_time_in_sec;
   if (cloud_inactive_time_ > options_.disk_saving_delay) {
-    WriteMutexLocker write_locker(locker);
     this->inner_cloud_->Clear();
   }
   return true;
-- 
2.43.0


From ec2c8f17e8b2fa4d60170854e3c21855ea780804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:08 +0000
Subject: [PATCH 06/31] fix: do not translate the normals of a transformed
 cloud

---
 builder/data/cloud_types.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 09e0734..497cb3b 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -298,8 +298,8 @@ void EigenPointCloud::ApplyTransform(const Eigen::Matrix4d& transform) {
 
   if (normals.cols() > 0) {
     CHECK_EQ(normals.cols(), points_count);
-    homo_data.block(0, 0, 3, points_count) = normals;
-    normals = (transform * homo_data).block(0, 0, 3, points_count);
+    // Normals are directions, translation must not change them.
+    normals = (transform.block(0, 0, 3, 3) * normals).eval();
   }
 }
 
-- 
2.43.0


From f0537fb6e9a7779edd9970fc404829161f47594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:08 +0000
Subject: [PATCH 07/31] fix: compensate cloud motion with the given transform

---
 builder/data/cloud_types.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 497cb3b..51fd170 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -311,11 +311,11 @@ void EigenPointCloud::ApplyMotionCompensation(
   CHECK_EQ(cloud_size, factors.size());
 
   for (size_t i = 0; i < cloud_size; ++i) {
-    const Eigen::Matrix4d transform = common::InterpolateTransform(
+    const Eigen::Matrix4d point_transform = common::InterpolateTransform(
         Eigen::Matrix4d::Identity().eval(), transform, factors[i]);
     const Eigen::Vector3d new_point_start =
-        transform.block(0, 0, 3, 3) * points.col(i).topRows(3) +
-        transform.block(0, 3, 3, 1);
+        point_transform.block(0, 0, 3, 3) * points.col(i).topRows(3) +
+        point_transform.block(0, 3, 3, 1);
     points.col(i).topRows(3) = new_point_start;
   }
 
-- 
2.43.0


From 225775900a163943130e0f520dc1cb93731a1887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:50 +0000
Subject: [PATCH 08/31] fix: keep the reference scan when a late scan is
 skipped

---
 builder/map_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 513bfea..05fad35 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -294,8 +294,8 @@ void MapBuilder::ScanMatchProcessing() {
 
     REGISTER_BLOCK("FrontEndOneFrame");
     if (extrapolator_ && source_time < extrapolator_->GetLastPoseTime()) {
+      // The reference cloud and its pose only change together.
       PRINT_INFO("Extrapolator still initialising...");
-      target_cloud = source_cloud;
       continue;
     }
 
-- 
2.43.0


From 4b99667ee61359575d367de7268ee14e125459fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:12:06 +0000
Subject: [PATCH 09/31] fix: configure the submap voxel filter under its own
 name

The text named another filter, so the voxel size option was ignored.
---
 builder/submap.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/submap.cc b/builder/submap.cc
index 9c95210..bdf5c71 100644
--- a/builder/submap.cc
+++ b/builder/submap.cc
@@ -146,7 +146,7 @@ void Submap::InsertFrame(const std::shared_ptr<Frame>& frame) {
       pre_processers::filter::VoxelGrid voxel_filter;
 
       const std::string filter_config_text =
-          "<filter name=\"RandomSampler\" >"
+          "<filter name=\"VoxelGrid\" >"
           "<param type=\"1\" name=\"voxel_size\">" +
           std::to_string(options_.voxel_size) +
           "</param>"
-- 
2.43.0


From 2834ab5cf54a444bba683bcbbe7bc827ead02358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:12:06 +0000
Subject: [PATCH 10/31] fix: pass points through the unimplemented statistic
 filter

The filter left its output untouched, so a chain ending with it lost all
points and the time stamp.
---
 pre_processors/filter_statistic_removal.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pre_processors/filter_statistic_removal.cc b/pre_processors/filter_statistic_removal.cc
index 451fe40..6c855e7 100644
--- a/pre_processors/filter_statistic_removal.cc
+++ b/pre_processors/filter_statistic_removal.cc
@@ -47,15 +47,20 @@ void StatisticRemoval::Filter(const data::InnerCloudType::Ptr &cloud) {
     return;
   }
 
-  // this->FilterPrepare(cloud);
+  this->FilterPrepare(cloud);
   // pcl::StatisticalOutlierRemoval sor;
   // sor.setInputCloud(this->inner_cloud_);
   // sor.setMeanK(point_num_meank_);
   // sor.setStddevMulThresh(std_mul_);
   // sor.filter(*cloud);
   // TODO(edward) implement statistic removal upon inner cloud type
-
-  // @todo inliers and outliers
+  // until then, all points are inliers.
+  cloud->points = this->inner_cloud_->points;
+  const int size = cloud->points.size();
+  this->inliers_.reserve(size);
+  for (int i = 0; i < size; ++i) {
+    this->inliers_.push_back(i);
+  }
 }
 
 }  // namespace filter
-- 
2.43.0


From fe3c4ce72440f61aaa1b84384cabb049dd6b7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:14:39 +0000
Subject: [PATCH 11/31] fix: initialise the odometry switch of the map builder

The constructor left the switch unset, so a builder that was never told to use
odometry could act on an odometry message and abort.
---
 builder/map_builder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 05fad35..0cdff86 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -52,6 +52,7 @@ constexpr double kLocalMapRange = 30.;           // m
 
 MapBuilder::MapBuilder()
     : use_imu_(false),
+      use_odom_(false),
       use_gps_(false),
       end_all_thread_(false),
       submap_processing_done_(false),
-- 
2.43.0


From 818f9d0065da88f73644d63e3185968d28521ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:26 +0000
Subject: [PATCH 12/31] fix: leave the voxel map output alone when there is no
 cloud to fill

The output functions announced that they would do nothing and then used the
missing cloud.
---
 builder/multi_resolution_voxel_map.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index 4917d30..f75ff03 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -126,6 +126,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
     const float threshold, const pcl::PointCloud<pcl::PointXYZI>::Ptr& cloud) {
   if (!cloud) {
     PRINT_WARNING("cloud is nullptr. do nothing!");
+    return;
   }
   cloud->clear();
   cloud->points.reserve(high_resolution_voxels_.size());
@@ -171,6 +172,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
     const pcl::PointCloud<pcl::PointXYZRGB>::Ptr& cloud) {
   if (!cloud) {
     PRINT_WARNING("cloud is nullptr. do nothing!");
+    return;
   }
   cloud->clear();
   cloud->points.reserve(high_resolution_voxels_.size());
-- 
2.43.0


From d26a2f80dec93fe5dd1a90be94ccbb7590acb700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:26 +0000
Subject: [PATCH 13/31] fix: keep the voxel output threshold inside the
 probability table

A threshold of 1 does not fit the 8 bit probability, so it wrapped around and
every voxel was written instead of none.
---
 builder/multi_resolution_voxel_map.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index f75ff03..f8e7184 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -130,7 +130,8 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
   }
   cloud->clear();
   cloud->points.reserve(high_resolution_voxels_.size());
-  const Probability prob_threshold = threshold * kTableSize;
+  const Probability prob_threshold =
+      Clamp(threshold * kTableSize, 0.f, kTableSize - 1.f);
   for (auto& high_res_voxel : high_resolution_voxels_) {
     if (high_res_voxel.second.probability >= prob_threshold) {
       CHECK(!high_res_voxel.second.points.empty());
@@ -176,7 +177,8 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
   }
   cloud->clear();
   cloud->points.reserve(high_resolution_voxels_.size());
-  const Probability prob_threshold = threshold * kTableSize;
+  const Probability prob_threshold =
+      Clamp(threshold * kTableSize, 0.f, kTableSize - 1.f);
   for (auto& high_res_voxel : high_resolution_voxels_) {
     if (high_res_voxel.second.probability >= prob_threshold) {
       CHECK(!high_res_voxel.second.points.empty());
-- 
2.43.0


From aa231f3ebdfffca1a7bd9752a0d83c136d7eb0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:22 +0000
Subject: [PATCH 14/31] fix: take the rotation of the newest pose, not its
 translation, for odometry velocity

---
 builder/pose_extrapolator.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index be3ff6a..1c5ea07 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -164,8 +164,7 @@ void PoseExtrapolator::AddOdometryData(const data::OdomMsg& odometry_data) {
       linear_velocity_in_tracking_frame_at_newest_odometry_time =
           common::Translation(odometry_pose_delta) / odometry_time_delta;
   const Eigen::Quaterniond orientation_at_newest_odometry_time =
-      Eigen::Quaterniond(
-          Eigen::Matrix3d(timed_pose_queue_.back().pose.block(0, 3, 3, 1))) *
+      Rotation(timed_pose_queue_.back().pose) *
       ExtrapolateRotation(odometry_data_newest.header.stamp,
                           odometry_imu_tracker_.get());
   linear_velocity_from_odometry_ =
-- 
2.43.0


From 78346c3dae316eddc6e01de2a50419affef9045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:22 +0000
Subject: [PATCH 15/31] fix: set up the IMU trackers with the first pose, they
 are used from then on

---
 builder/pose_extrapolator.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index 1c5ea07..8a91c3a 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -94,7 +94,6 @@ void PoseExtrapolator::AddPose(const SimpleTime time, const RigidPose3d& pose) {
     // It's the first pose and the only pose.
     cached_extrapolated_pose_.time = time;
     cached_extrapolated_pose_.pose = pose;
-    return;
   }
 
   while (timed_pose_queue_.size() > 2 &&
-- 
2.43.0


From d31410603e2cc227c865deef5048aa5d9de446a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:10:47 +0000
Subject: [PATCH 16/31] fix: match every accepted cloud before the scan
 matching thread ends

---
 builder/data/data_collector.cc | 18 +++++++++++-------
 builder/map_builder.cc         |  4 +++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 42461d3..1667e0c 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -122,16 +122,19 @@ void DataCollector::CloudPreProcessing() {
     if (kill_cloud_preprocessing_thread_) {
       break;
     }
-    if (cloud_data_before_preprocessing_.empty()) {
-      SimpleTime::FromSec(0.005).Sleep();
-      continue;
-    }
 
     InnerCloudType::Ptr data;
     {
       Locker locker(mutex_[kPointCloudData]);
-      data = cloud_data_before_preprocessing_.front();
-      cloud_data_before_preprocessing_.pop_front();
+      if (!cloud_data_before_preprocessing_.empty()) {
+        // It stays in this queue until the filtered cloud is in the other one,
+        // so that it always counts as remaining.
+        data = cloud_data_before_preprocessing_.front();
+      }
+    }
+    if (data == nullptr) {
+      SimpleTime::FromSec(0.005).Sleep();
+      continue;
     }
 
     // filtering cloud
@@ -144,6 +147,7 @@ void DataCollector::CloudPreProcessing() {
     Locker locker(mutex_[kPointCloudData]);
     // TODO(edward) these clouds can be cached to disk as well.
     cloud_data_.push_back(filtered_cloud);
+    cloud_data_before_preprocessing_.pop_front();
 
     // just for debug
     got_clouds_count_++;
@@ -168,7 +172,7 @@ InnerCloudType::Ptr DataCollector::GetNewCloud() {
 
 size_t DataCollector::GetRemainingCloudSize() {
   Locker locker(mutex_[kPointCloudData]);
-  return cloud_data_.size();
+  return cloud_data_.size() + cloud_data_before_preprocessing_.size();
 }
 
 void DataCollector::AddSensorData(const OdomMsg& odom_msg) {
diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 0cdff86..1070beb 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -268,9 +268,11 @@ void MapBuilder::ScanMatchProcessing() {
   Pose3d pose_target = Pose3d::Identity();
   Pose3d accumulative_transform = Pose3d::Identity();
   while (true) {
+    // No cloud is accepted any more once it is set.
+    const bool finishing = end_all_thread_.load();
     auto new_inner_cloud = data_collector_->GetNewCloud();
     if (new_inner_cloud == nullptr) {
-      if (end_all_thread_.load()) {
+      if (finishing && data_collector_->GetRemainingCloudSize() == 0) {
         break;
       }
       SimpleTime::FromSec(0.005).Sleep();
-- 
2.43.0


From 4f8d8c24a3cda6e58ab7b344dc29bae443ee32af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:10:47 +0000
Subject: [PATCH 17/31] fix: do not miss the last frames and submap when the
 stage before has just ended

---
 builder/map_builder.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 1070beb..abfeeba 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -455,9 +455,11 @@ void MapBuilder::ConnectAllSubmap() {
   submaps_to_connect.reserve(20);
   bool first_inserted = false;
   while (true) {
+    // Asked before counting the submaps, the last one may come in between.
+    const bool submaps_complete = submap_processing_done_.load();
     int submap_size = current_trajectory_->size();
     if (submap_size == 0 || submap_size - 1 == current_finished_index) {
-      if (submap_processing_done_.load()) {
+      if (submaps_complete) {
         break;
       }
       SimpleTime::FromSec(0.1).Sleep();
@@ -662,9 +664,11 @@ void MapBuilder::SubmapProcessing() {
   submap_match_thread_pool.enqueue([&]() { ConnectAllSubmap(); });
 
   while (true) {
+    // Asked before counting the frames, the last ones may come in between.
+    const bool scan_matching = scan_match_thread_running_.load();
     const int frames_size = frames_.size();
     if (frames_size - current_index < submap_frame_count) {
-      if (!scan_match_thread_running_.load()) {
+      if (!scan_matching) {
         PRINT_INFO("no enough frames for new submap, quit");
         break;
       }
-- 
2.43.0


From 74b54e8492979f9c0f5918cbb4a3f1efb09478b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:23:01 +0000
Subject: [PATCH 18/31] fix: start the preprocessing thread after all members
 are set up

---
 builder/data/data_collector.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 1667e0c..8c85669 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -37,8 +37,6 @@ namespace data {
 DataCollector::DataCollector(const DataCollectorOptions& options,
                              pre_processers::filter::Factory* const filter)
     : options_(options),
-      cloud_processing_thread_(
-          std::bind(&DataCollector::CloudPreProcessing, this)),
       filter_factory_(filter),
       accumulated_cloud_count_(0) {
   // reserve the vectors for less memory copy when push_back
@@ -47,6 +45,9 @@ DataCollector::DataCollector(const DataCollectorOptions& options,
   gps_data_.reserve(reserve_size);
   enu_path_cloud_.points.reserve(reserve_size);
   odom_path_cloud_.points.reserve(reserve_size);
+  // the thread uses the other members, so it starts after all of them
+  cloud_processing_thread_ =
+      std::thread(std::bind(&DataCollector::CloudPreProcessing, this));
 }
 
 DataCollector::~DataCollector() {
-- 
2.43.0


From 9fc06103af97a7a102b055b1edc2c7c131e113a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:23:15 +0000
Subject: [PATCH 19/31] fix: make the stop flags of background threads atomic

---
 builder/data/data_collector.h     | 2 +-
 common/performance/process_info.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/data/data_collector.h b/builder/data/data_collector.h
index f5c7154..189896c 100644
--- a/builder/data/data_collector.h
+++ b/builder/data/data_collector.h
@@ -137,7 +137,7 @@ class DataCollector {
   std::deque<InnerCloudType::Ptr> cloud_data_;
   std::deque<InnerCloudType::Ptr> cloud_data_before_preprocessing_;
 
-  bool kill_cloud_preprocessing_thread_ = false;
+  std::atomic<bool> kill_cloud_preprocessing_thread_{false};
   std::thread cloud_processing_thread_;
   pre_processers::filter::Factory* filter_factory_;
   std::vector<ImuData> imu_data_;
diff --git a/common/performance/process_info.h b/common/performance/process_info.h
index 923a9ad..3ca1ba5 100644
--- a/common/performance/process_info.h
+++ b/common/performance/process_info.h
@@ -30,6 +30,7 @@
 #include <sys/stat.h>
 #include <sys/time.h>
 #include <unistd.h>
+#include <atomic>
 #include <fstream>
 #include <iostream>
 #include <queue>
@@ -63,7 +64,7 @@ class ProcessProfiler {
 
   pid_t pid_;
   std::thread profiling_thread_;
-  bool run_ = true;
+  std::atomic<bool> run_{true};
 };
 
 }  // namespace performance
-- 
2.43.0


From 09b207845fb9f7b95149fcb9cbef1d3d3a4370c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:23:15 +0000
Subject: [PATCH 20/31] fix: lock the recorded paths and the gps reference
 while reading them

---
 builder/data/data_collector.cc | 3 +++
 builder/data/data_collector.h  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 8c85669..436c94d 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -58,6 +58,7 @@ DataCollector::~DataCollector() {
 }
 
 void DataCollector::RawGpsDataToFile(const std::string& filename) const {
+  Locker locker(mutex_[kGpsData]);
   if (!enu_path_cloud_.empty()) {
     PRINT_INFO_FMT("output raw gps data into file: %s", filename.c_str());
     pcl::io::savePCDFileBinaryCompressed(filename, enu_path_cloud_);
@@ -65,6 +66,7 @@ void DataCollector::RawGpsDataToFile(const std::string& filename) const {
 }
 
 void DataCollector::RawOdomDataToFile(const std::string& filename) const {
+  Locker locker(mutex_[kOdometryData]);
   if (!odom_path_cloud_.empty()) {
     PRINT_INFO_FMT("output raw odom data into file: %s", filename.c_str());
     pcl::io::savePCDFileBinaryCompressed(filename, odom_path_cloud_);
@@ -302,6 +304,7 @@ std::unique_ptr<Eigen::Matrix4d> DataCollector::InterpolateOdom(
 
 boost::optional<GeographicLib::LocalCartesian> DataCollector::GetGpsReference()
     const {
+  Locker locker(mutex_[kGpsData]);
   return reference_gps_point_;
 }
 
diff --git a/builder/data/data_collector.h b/builder/data/data_collector.h
index 189896c..b1e6486 100644
--- a/builder/data/data_collector.h
+++ b/builder/data/data_collector.h
@@ -131,7 +131,7 @@ class DataCollector {
  private:
   /// every kind of data has its own mutex
   /// avoiding resource competition between different kind of data
-  std::mutex mutex_[kDataTypeCount];
+  mutable std::mutex mutex_[kDataTypeCount];
   const DataCollectorOptions options_;
 
   std::deque<InnerCloudType::Ptr> cloud_data_;
-- 
2.43.0


From aaf3eb6eb1274345565baeb31eb742115479f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:25:09 +0000
Subject: [PATCH 21/31] fix: lock the shared cloud while handing out its
 contents

---
 builder/data/cloud_types.cc | 15 ++++++++++++---
 builder/data/cloud_types.h  |  4 ++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 51fd170..f80a702 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -428,10 +428,13 @@ void InnerPointCloudData::SetInnerCloudImpl(const InnerCloudType::Ptr cloud) {
 }
 
 bool InnerPointCloudData::SaveToFile(const std::string& filename) {
-  common::ReadMutexLocker locker(mutex_);
+  boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
   CHECK(!filename.empty());
   CHECK(!EmptyImpl());
-  filename_ = filename;
+  {
+    common::WriteMutexLocker write_locker(locker);
+    filename_ = filename;
+  }
 
   std::fstream of(filename_, std::ios::out | std::ios::binary);
   CHECK(of.is_open()) << "Could not open file: " << filename_;
@@ -461,11 +464,17 @@ bool InnerPointCloudData::CloudInMemory() {
 }
 
 std::shared_ptr<EigenPointCloud> InnerPointCloudData::GetEigenCloud() const {
+  common::ReadMutexLocker locker(mutex_);
   return eigen_cloud_;
 }
 
-const SimpleTime& InnerPointCloudData::GetTime() const { return time_; }
+SimpleTime InnerPointCloudData::GetTime() const {
+  common::ReadMutexLocker locker(mutex_);
+  return time_;
+}
+
 InnerCloudType::Ptr InnerPointCloudData::GetInnerCloud() const {
+  common::ReadMutexLocker locker(mutex_);
   return inner_cloud_;
 }
 
diff --git a/builder/data/cloud_types.h b/builder/data/cloud_types.h
index 317f6ab..8336edb 100644
--- a/builder/data/cloud_types.h
+++ b/builder/data/cloud_types.h
@@ -175,7 +175,7 @@ class InnerPointCloudData {
 
   /// Set Geters.
   EigenPointCloud::Ptr GetEigenCloud() const;
-  const SimpleTime& GetTime() const;
+  SimpleTime GetTime() const;
   InnerCloudType::Ptr GetInnerCloud() const;
 
  private:
@@ -183,7 +183,7 @@ class InnerPointCloudData {
   bool EmptyImpl() const;
 
  private:
-  common::ReadWriteMutex mutex_;
+  mutable common::ReadWriteMutex mutex_;
 
   InnerCloudType::Ptr inner_cloud_;
   EigenPointCloud::Ptr eigen_cloud_;
-- 
2.43.0


From 9e571e2dd164c5d2cce26f0d17c6cbde8601425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:29:40 +0000
Subject: [PATCH 22/31] fix: stop the workers when the builder goes away and
 allow finishing twice

---
 builder/map_builder.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index abfeeba..e4f7835 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -58,7 +58,11 @@ MapBuilder::MapBuilder()
       submap_processing_done_(false),
       scan_match_thread_running_(false) {}
 
-MapBuilder::~MapBuilder() {}
+MapBuilder::~MapBuilder() {
+  if (scan_match_thread_) {
+    FinishAllComputations();
+  }
+}
 
 int MapBuilder::InitialiseInside() {
   PRINT_INFO("Init scan matchers.");
@@ -744,6 +748,7 @@ void MapBuilder::FinishAllComputations() {
     } while (scan_match_thread_running_.load());
 
     scan_match_thread_->join();
+    scan_match_thread_.reset();
   }
 
   if (submap_thread_ && submap_thread_->joinable()) {
-- 
2.43.0


From cd9e862321eac9636cc5c778def834b7b962118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:49 +0000
Subject: [PATCH 23/31] fix: keep width and height of converted clouds in step
 with their points

---
 builder/data/cloud_types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index f80a702..e813085 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -282,7 +282,7 @@ void ToPclPointCloud(const InnerCloudType& cloud,
     for (const auto& point : cloud.points) {
       PointT pcl_point;
       ToPclPoint(point, &pcl_point);
-      pcl_cloud->points.push_back(pcl_point);
+      pcl_cloud->push_back(pcl_point);
     }
   }
 }
-- 
2.43.0


From 55e4e0a1d78ae6063d5f2ea863e01310371c93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:49 +0000
Subject: [PATCH 24/31] fix: write readable map files when voxels are not
 averaged

---
 builder/multi_resolution_voxel_map.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index f8e7184..1c67838 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -160,7 +160,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
           }
           pcl::PointXYZI pcl_point;
           data::ToPclPoint(point, &pcl_point);
-          cloud->points.push_back(pcl_point);
+          cloud->push_back(pcl_point);
         }
       }
     }
@@ -210,7 +210,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
           rgb_point.y = point.y;
           rgb_point.z = point.z;
           rgb_point.r = rgb_point.g = rgb_point.b = rgb;
-          cloud->points.push_back(rgb_point);
+          cloud->push_back(rgb_point);
         }
       }
     }
-- 
2.43.0


From c9f10b0838c8e4e82711543126f2f7395814adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:49 +0000
Subject: [PATCH 25/31] fix: write readable map package pieces

---
 builder/map_package.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/map_package.cc b/builder/map_package.cc
index fd080c0..3147c0c 100644
--- a/builder/map_package.cc
+++ b/builder/map_package.cc
@@ -193,7 +193,7 @@ bool SaveTrajectoriesAsMapPackage(
                         part.bb_max)) {
           point.x -= part.center[0];
           point.y -= part.center[1];
-          part.cloud->points.push_back(point);
+          part.cloud->push_back(point);
         }
       }
 
-- 
2.43.0


From e6c2bfb7c7c0333e70fa1be6e1a54c554c7265b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:15:17 +0000
Subject: [PATCH 26/31] fix: refuse a cloud when the descriptor ring width is
 too small

The ring count stayed unset and the binning then used it, which crashed.
---
 descriptor/m2dp.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/descriptor/m2dp.cc b/descriptor/m2dp.cc
index 57e6342..835d443 100644
--- a/descriptor/m2dp.cc
+++ b/descriptor/m2dp.cc
@@ -61,10 +61,6 @@ void M2dp::preProcess(const data::InnerCloudType::Ptr& source) {
     }
   }
 
-  if (r_ < 1.e-6) {
-    PCL_ERROR("r is too small.\n");
-    return;
-  }
   l_ = std::ceil(std::sqrt(max_distance_ / r_));
   A_.resize(p_ * q_, l_ * t_);
 }
@@ -124,6 +120,10 @@ bool M2dp::setInputCloud(const data::InnerCloudType::Ptr& source) {
     PCL_ERROR("source is empty.\n");
     return false;
   }
+  if (r_ < 1.e-6) {
+    PCL_ERROR("r is too small.\n");
+    return false;
+  }
 
   // step1 pre processing
   preProcess(source);
-- 
2.43.0


From 0b8923ca5a34cfd7ec61fb065ca4882972492ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:15:17 +0000
Subject: [PATCH 27/31] fix: forget the points of the previous cloud in the
 descriptor

A second input cloud was described together with the first one.
---
 descriptor/m2dp.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/descriptor/m2dp.cc b/descriptor/m2dp.cc
index 835d443..f2cfc86 100644
--- a/descriptor/m2dp.cc
+++ b/descriptor/m2dp.cc
@@ -54,6 +54,7 @@ void M2dp::preProcess(const data::InnerCloudType::Ptr& source) {
       new pcl::PointCloud<pcl::PointXYZ>);
   pca.project(*pcl_cloud, *tmp_inner_cloud);
 
+  inner_cloud_->points.clear();
   for (auto& point : tmp_inner_cloud->points) {
     double d = getLength<pcl::PointXYZ>(point);
     if (d <= max_distance_) {
-- 
2.43.0


From a57a7d07a8c89e813876a02c17124903a920e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:12:46 +0000
Subject: [PATCH 28/31] fix: give ids, scores, transforms and counters a value
 on construction

Frame, submap and trajectory ids, the registration score, the loop
detector counters and the sensor transforms of the map builder could be
read before anything was stored in them.  The same holds for the process
times when their file cannot be read.
---
 back_end/loop_detector.h           |  8 ++++----
 builder/frame.h                    |  6 +++---
 builder/map_builder.h              | 12 ++++++------
 builder/submap.h                   |  4 ++--
 builder/trajectory.h               |  2 +-
 common/octree.h                    |  2 +-
 common/performance/process_info.cc |  4 ++--
 registrators/interface.h           |  2 +-
 8 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/back_end/loop_detector.h b/back_end/loop_detector.h
index d77713c..b72ab07 100644
--- a/back_end/loop_detector.h
+++ b/back_end/loop_detector.h
@@ -47,7 +47,7 @@ enum class LoopStatus : uint8_t {
 };
 
 struct DetectResult {
-  int current_frame_index;
+  int current_frame_index = 0;
   LoopStatus status = LoopStatus::kNoLoop;
   // Is it or not a good loop detection result.
   bool close_succeed = false;
@@ -97,9 +97,9 @@ class LoopDetector {
   std::vector<std::shared_ptr<Submap>> all_frames_;
   std::vector<Eigen::Vector3d> all_frames_translation_;
 
-  int loop_detection_;
-  int accumulate_loop_detected_count_;
-  float current_min_distance_;
+  int loop_detection_ = 0;
+  int accumulate_loop_detected_count_ = 0;
+  float current_min_distance_ = -1.f;
 
   LoopStatus current_status_ = LoopStatus::kNoLoop;
   LoopDetectorSettings settings_;
diff --git a/builder/frame.h b/builder/frame.h
index 252feb7..f421d4c 100644
--- a/builder/frame.h
+++ b/builder/frame.h
@@ -31,9 +31,9 @@
 namespace static_map {
 
 struct FrameId {
-  int32_t trajectory_index;
-  int32_t submap_index;
-  int32_t frame_index;  // in submap
+  int32_t trajectory_index = 0;
+  int32_t submap_index = 0;
+  int32_t frame_index = 0;  // in submap
 
   // Operators
   bool operator==(const FrameId& other) const;
diff --git a/builder/map_builder.h b/builder/map_builder.h
index 0977d4c..f57e81d 100644
--- a/builder/map_builder.h
+++ b/builder/map_builder.h
@@ -236,13 +236,13 @@ class MapBuilder {
 
   // we assume that there is only one lidar
   // even if we have several lidars, we still use the fused cloud only
-  Eigen::Matrix4d transform_odom_lidar_;
-  Eigen::Matrix4d transform_imu_lidar_;
-  Eigen::Matrix4d tracking_to_imu_;
-  Eigen::Matrix4d tracking_to_odom_;
-  Eigen::Matrix4d tracking_to_lidar_;
+  Eigen::Matrix4d transform_odom_lidar_ = Eigen::Matrix4d::Identity();
+  Eigen::Matrix4d transform_imu_lidar_ = Eigen::Matrix4d::Identity();
+  Eigen::Matrix4d tracking_to_imu_ = Eigen::Matrix4d::Identity();
+  Eigen::Matrix4d tracking_to_odom_ = Eigen::Matrix4d::Identity();
+  Eigen::Matrix4d tracking_to_lidar_ = Eigen::Matrix4d::Identity();
   // can not use the inversion of the transform
-  Eigen::Matrix4d tracking_to_gps_;
+  Eigen::Matrix4d tracking_to_gps_ = Eigen::Matrix4d::Identity();
   bool use_imu_;
   bool use_odom_;
   bool use_gps_;
diff --git a/builder/submap.h b/builder/submap.h
index c5c8e7e..bc39f63 100644
--- a/builder/submap.h
+++ b/builder/submap.h
@@ -39,8 +39,8 @@
 namespace static_map {
 
 struct SubmapId {
-  int32_t trajectory_index;
-  int32_t submap_index;
+  int32_t trajectory_index = 0;
+  int32_t submap_index = 0;
 
   bool operator==(const SubmapId& other) const;
   bool operator!=(const SubmapId& other) const;
diff --git a/builder/trajectory.h b/builder/trajectory.h
index 027f35b..0c6c2e2 100644
--- a/builder/trajectory.h
+++ b/builder/trajectory.h
@@ -72,7 +72,7 @@ class Trajectory : public tbb::concurrent_vector<std::shared_ptr<Submap>> {
   void OutputPathToPointcloud(const std::string& path);
 
  private:
-  int id_;
+  int id_ = 0;
   // @todo(edward) change to enu offset
   double enu_offset_x_ = 0.;
   double enu_offset_y_ = 0.;
diff --git a/common/octree.h b/common/octree.h
index 40dcccc..b87f7db 100644
--- a/common/octree.h
+++ b/common/octree.h
@@ -37,7 +37,7 @@ namespace common {
 using OctreePoint = Eigen::Vector3d;
 
 struct OctreeConfig {
-  OctreePoint center;      // unit: m
+  OctreePoint center = OctreePoint::Zero();  // unit: m
   double max_size = 100.;  // unit: m
   int32_t max_depth = 15;
   int32_t max_num_points_in_voxel = 4;
diff --git a/common/performance/process_info.cc b/common/performance/process_info.cc
index 6a9efe5..be40402 100644
--- a/common/performance/process_info.cc
+++ b/common/performance/process_info.cc
@@ -82,7 +82,7 @@ const char* ProcessProfiler::GetItems(const char* buffer, unsigned int item) {
 uint64_t ProcessProfiler::GetCpuTotalOccpy() {
   FILE* fd;
   char buff[1024] = {0};
-  TotalCpuOccpy t;
+  TotalCpuOccpy t = {};
 
   fd = fopen("/proc/stat", "r");
   if (nullptr == fd) {
@@ -101,7 +101,7 @@ uint64_t ProcessProfiler::GetCpuTotalOccpy() {
 uint64_t ProcessProfiler::GetCpuProcOccpy(unsigned int pid) {
   constexpr int kProcessItem = 14;
   char file_name[64] = {0};
-  ProcCpuOccpy t;
+  ProcCpuOccpy t = {};
   FILE* fd;
   char line_buff[1024] = {0};
   snprintf(file_name, sizeof(file_name), "/proc/%d/stat", pid);
diff --git a/registrators/interface.h b/registrators/interface.h
index 14e2254..1492600 100644
--- a/registrators/interface.h
+++ b/registrators/interface.h
@@ -106,7 +106,7 @@ class Interface {
   virtual Type GetType() const { return type_; }
 
  protected:
-  double final_score_;
+  double final_score_ = 0.;
   Type type_ = kNoType;
   InnerCloudPtr source_cloud_ = nullptr;
   InnerCloudPtr target_cloud_ = nullptr;
-- 
2.43.0


From a714b1366c7ef1e24d1fbdc669e0b1f93a83c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:23:19 +0000
Subject: [PATCH 29/31] fix: report the NDT score on the same scale as the
 other matchers

The score of a perfect match was 0 and grew with the distance, so every
good match was below the accepted minimum.
---
 registrators/ndt.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/registrators/ndt.cc b/registrators/ndt.cc
index 74d6520..292bff2 100644
--- a/registrators/ndt.cc
+++ b/registrators/ndt.cc
@@ -21,6 +21,9 @@
 // SOFTWARE.
 
 #include "registrators/ndt.h"
+
+#include <cmath>
+
 #include "pclomp/voxel_grid_covariance_omp_impl.hpp"
 
 namespace static_map {
@@ -57,7 +60,8 @@ bool Ndt::Align(const Eigen::Matrix4d& guess,
       new pcl::PointCloud<pcl::PointXYZ>);
   inner_matcher_.align(*aligned_cloud, guess.cast<float>());
 
-  this->final_score_ = inner_matcher_.getFitnessScore();
+  // the fitness score of pcl is a mean squared distance (0 for a perfect match)
+  this->final_score_ = std::exp(-inner_matcher_.getFitnessScore());
   result = inner_matcher_.getFinalTransformation().template cast<double>();
 
   return true;
-- 
2.43.0


From 3191df0c17f092919a15cd36be420377f781e0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:23:19 +0000
Subject: [PATCH 30/31] fix: let an alignment without clouds fail instead of
 using missing data

---
 registrators/icp_fast.cc         | 4 ++++
 registrators/icp_pointmatcher.cc | 5 +++++
 registrators/ndt_gicp.cc         | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/registrators/icp_fast.cc b/registrators/icp_fast.cc
index 1f4f30b..2bc2eff 100644
--- a/registrators/icp_fast.cc
+++ b/registrators/icp_fast.cc
@@ -454,6 +454,10 @@ void IcpFast::SetInputTarget(InnerCloudPtr cloud) {
 
 bool IcpFast::Align(const Eigen::Matrix4d& guess,
                     Eigen::Matrix4d& result) {  // NOLINT
+  if (!source_cloud_ || !target_cloud_) {
+    return false;
+  }
+
   const int target_points_count = target_cloud_->points.cols();
   const Eigen::Vector3d target_mean =
       target_cloud_->points.rowwise().sum() / target_points_count;
diff --git a/registrators/icp_pointmatcher.cc b/registrators/icp_pointmatcher.cc
index cd91806..4783d2a 100644
--- a/registrators/icp_pointmatcher.cc
+++ b/registrators/icp_pointmatcher.cc
@@ -103,6 +103,11 @@ void IcpUsingPointMatcher::SetInputTarget(InnerCloudPtr cloud) {
 
 bool IcpUsingPointMatcher::Align(const Eigen::Matrix4d& guess,
                                  Eigen::Matrix4d& result) {  // NOLINT
+  if (inner_->reading_cloud_->getNbPoints() == 0 ||
+      inner_->reference_cloud_->getNbPoints() == 0) {
+    return false;
+  }
+
   // **** compute the transform ****
   result = inner_->pm_icp_
                .compute(*(inner_->reading_cloud_), *(inner_->reference_cloud_),
diff --git a/registrators/ndt_gicp.cc b/registrators/ndt_gicp.cc
index 669fe35..8736f60 100644
--- a/registrators/ndt_gicp.cc
+++ b/registrators/ndt_gicp.cc
@@ -54,6 +54,10 @@ void NdtWithGicp::InitWithOptions() {
 
 bool NdtWithGicp::Align(const Eigen::Matrix4d& guess,
                         Eigen::Matrix4d& result) {  // NOLINT
+  if (!this->source_cloud_ || !this->target_cloud_) {
+    return false;
+  }
+
   down_sampled_source_cloud_.reset(new PointCloudSource);
   down_sampled_target_cloud_.reset(new PointCloudTarget);
   if (options_.using_voxel_filter) {
-- 
2.43.0


From f05472b550e11f98a40cbecdaf13fd6b5f33d660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:00:47 +0000
Subject: [PATCH 31/31] fix: keep the child frame of a converted odometry
 message

---
 ros_node/msg_conversion.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_node/msg_conversion.cc b/ros_node/msg_conversion.cc
index a6c08ab..afd6017 100644
--- a/ros_node/msg_conversion.cc
+++ b/ros_node/msg_conversion.cc
@@ -73,6 +73,7 @@ static_map::data::ImuMsg ToLocalImu(const sensor_msgs::Imu& msg) {
 static_map::data::OdomMsg ToLocalOdom(const nav_msgs::Odometry& msg) {
   static_map::data::OdomMsg local_odom;
   local_odom.header = ToLocalHeader(msg.header);
+  local_odom.child_frame_id = msg.child_frame_id;
 
   local_odom.pose.pose.position.x() = msg.pose.pose.position.x;
   local_odom.pose.pose.position.y() = msg.pose.pose.position.y;
-- 
2.43.0

