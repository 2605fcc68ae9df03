From fa86955f3020842b327ca8b01e8983edef1c86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 01/47] fix: forward read-only marks and source locations of a
 config view to its parent

---
 vital/config/config_block.cxx | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index e888069..d667b09 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -227,6 +227,11 @@ bool
 config_block
 ::is_read_only( config_block_key_t const& key ) const
 {
+  if ( m_parent )
+  {
+    return m_parent->is_read_only( m_name + block_sep + key );
+  }
+
   return 0 != m_ro_list.count( key );
 }
 
@@ -237,6 +242,12 @@ void
 config_block
 ::mark_read_only( config_block_key_t const& key )
 {
+  if ( m_parent )
+  {
+    m_parent->mark_read_only( m_name + block_sep + key );
+    return;
+  }
+
   m_ro_list.insert( key );
 }
 
@@ -400,6 +411,12 @@ void
 config_block
 ::set_location( config_block_key_t const& key, std::shared_ptr< std::string > file, int line )
 {
+  if ( m_parent )
+  {
+    m_parent->set_location( m_name + block_sep + key, file, line );
+    return;
+  }
+
   m_def_store[key] = source_location( file, line );
 }
 
@@ -411,6 +428,11 @@ config_block
                 std::string& f,
                 int& l) const
 {
+  if ( m_parent )
+  {
+    return m_parent->get_location( m_name + block_sep + key, f, l );
+  }
+
   location_t::const_iterator i = m_def_store.find( key );
   if ( i != m_def_store.end() )
   {
-- 
2.43.0


From 00e40b4f57669599c5a707f911a3fc35588bc200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 02/47] fix: report a timestamp config value that can not be
 converted

---
 vital/types/timestamp_config.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vital/types/timestamp_config.h b/vital/types/timestamp_config.h
index f2e04ad..27129de 100644
--- a/vital/types/timestamp_config.h
+++ b/vital/types/timestamp_config.h
@@ -63,11 +63,13 @@ config_block_get_value_cast( config_block_value_t const& value )
   str << value;
 
   timestamp::time_t t;
-  str >> t;
-  obj.set_time_usec( t );
-
   timestamp::frame_t f;
-  str >> f;
+  if ( ! ( str >> t >> f ) )
+  {
+    throw bad_config_block_cast( "failed to convert from string representation \"" + value + "\" to timestamp" );
+  }
+
+  obj.set_time_usec( t );
   obj.set_frame( f );
 
   return obj;
-- 
2.43.0


From c11cd5f5cb4c68687a17ed8a71241f93f7bb6c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 03/47] fix: report failure to open or write a config file

---
 vital/config/config_block_io.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vital/config/config_block_io.cxx b/vital/config/config_block_io.cxx
index ba47e56..f8db572 100644
--- a/vital/config/config_block_io.cxx
+++ b/vital/config/config_block_io.cxx
@@ -394,9 +394,17 @@ write_config_file( config_block_sptr const& config,
 
   // open output file and write each key/value to a line.
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path, "Could not open file for writing." );
+  }
 
   write_config( config, ofile );
   ofile.close();
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path, "Error writing to file." );
+  }
 }
 
 
-- 
2.43.0


From 44c033248cfabcaaa645c7c6bf019013bf8d6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 04/47] fix: report failure to open or write camera, landmark
 and track files

---
 vital/io/camera_io.cxx       | 9 +++++++++
 vital/io/landmark_map_io.cxx | 9 +++++++++
 vital/io/track_set_io.cxx    | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/vital/io/camera_io.cxx b/vital/io/camera_io.cxx
index bfbb322..8c0fa22 100644
--- a/vital/io/camera_io.cxx
+++ b/vital/io/camera_io.cxx
@@ -117,8 +117,17 @@ write_krtd_file( camera const&  cam,
 
   // open output file and write the ins_data
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
+
   ofile << cam;
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Failed to write file." );
+  }
 }
 
 
diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 4f8501e..8dae466 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -85,6 +85,11 @@ write_ply_file( landmark_map_sptr const&  landmarks,
 
   // open output file and write the tracks
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
+
   // write the PLY header
   ofile << "ply\n"
            "format ascii 1.0\n"
@@ -119,6 +124,10 @@ write_ply_file( landmark_map_sptr const&  landmarks,
           << " " << p.first << " " << p.second->observations() << "\n";
   }
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Failed to write file." );
+  }
 } // write_ply_file
 
 
diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 672bbc9..3fc03d5 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -141,6 +141,11 @@ write_track_file( track_set_sptr const& tracks,
 
   // open output file and write the tracks
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
+
   std::vector< vital::track_sptr > trks = tracks->tracks();
   VITAL_FOREACH( vital::track_sptr t, trks )
   {
@@ -150,6 +155,10 @@ write_track_file( track_set_sptr const& tracks,
     }
   }
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Failed to write file." );
+  }
 } // write_track_file
 
 } } // end namespace
-- 
2.43.0


From f987b26c4b27aa871bf479488067b5e0f432e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 05/47] fix: refuse to write a track state without a feature

---
 vital/io/track_set_io.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 3fc03d5..0bdb8e7 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -151,6 +151,12 @@ write_track_file( track_set_sptr const& tracks,
   {
     VITAL_FOREACH( vital::track::track_state const& s, *t )
     {
+      if ( ! s.feat )
+      {
+        throw file_write_exception( file_path,
+              "A track state does not have a feature." );
+      }
+
       ofile << t->id() << " " << s.frame_id << " " << *s.feat << "\n";
     }
   }
-- 
2.43.0


From e3665e82da0390836bb139bbd47bcb5a74c2013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 06/47] fix: report a track file line that can not be converted

---
 vital/io/track_set_io.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 0bdb8e7..3f62e87 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -83,7 +83,10 @@ read_track_file( path_t const& file_path )
     frame_id_t fid;
     feature_d feat;
     std::stringstream ss( line );
-    ss >> tid >> fid >> feat;
+    if ( ! ( ss >> tid >> fid >> feat ) )
+    {
+      throw invalid_data( "Malformed line in track file: \"" + line + "\"" );
+    }
 
     track_sptr t;
     std::map< track_id_t, track_sptr >::const_iterator it = track_map.find( tid );
-- 
2.43.0


From bef2afe424ec23ff9c337902ec48eeb49f0147ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 07/47] fix: refuse to read a PLY file from a directory

---
 vital/io/landmark_map_io.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 8dae466..21294d4 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -165,6 +165,11 @@ read_ply_file( path_t const& file_path )
   {
     throw file_not_found_exception( file_path, "Cannot find file." );
   }
+  else if ( kwiversys::SystemTools::FileIsDirectory( file_path ) )
+  {
+    throw file_not_found_exception( file_path,
+          "Path given doesn't point to a regular file!" );
+  }
 
   landmark_map::map_landmark_t landmarks;
 
-- 
2.43.0


From 2152d8e677d94372a018e91d81d78efc00cc8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 08/47] fix: do not read PLY elements that follow the vertices
 as a vertex

---
 vital/io/landmark_map_io.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 21294d4..4b9d9d4 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -261,6 +261,12 @@ read_ply_file( path_t const& file_path )
       continue;
     }
 
+    // exit if we have read the expected number of points
+    if ( vert_count >= num_verts )
+    {
+      break;
+    }
+
     // TODO throw exceptions if tokens.size() != vert_props.size()
     // or if the values do not parse as expected
     double x=0, y=0, z=0;
@@ -321,12 +327,6 @@ read_ply_file( path_t const& file_path )
     lm->set_color( color );
     lm->set_observations( observations );
     landmarks[id] = lm;
-
-    // exit if we have read the expected number of points
-    if ( vert_count > num_verts )
-    {
-      break;
-    }
   }
 
   ifile.close();
-- 
2.43.0


From 52afcd001f787f190f7f412eaf478f065d588844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 09/47] fix: report PLY values that are missing or can not be
 converted

---
 vital/io/landmark_map_io.cxx | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 4b9d9d4..f69c062 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -233,7 +233,10 @@ read_ply_file( path_t const& file_path )
            tokens[1] == "vertex" )
       {
         std::istringstream iss(tokens[2]);
-        iss >> num_verts;
+        if ( ! ( iss >> num_verts ) )
+        {
+          throw invalid_data( "Invalid number of vertices in PLY file: \"" + tokens[2] + "\"" );
+        }
         parsing_vertex_props = true;
       }
       else if ( tokens[0] == "element" )
@@ -267,8 +270,11 @@ read_ply_file( path_t const& file_path )
       break;
     }
 
-    // TODO throw exceptions if tokens.size() != vert_props.size()
-    // or if the values do not parse as expected
+    if ( tokens.size() < vert_props.size() )
+    {
+      throw invalid_data( "Missing values in PLY vertex: \"" + line + "\"" );
+    }
+
     double x=0, y=0, z=0;
     double nx=0, ny=0, nz=0;
     rgb_color color;
@@ -319,6 +325,11 @@ read_ply_file( path_t const& file_path )
         default:
           break;
       }
+
+      if ( ! iss )
+      {
+        throw invalid_data( "Invalid value in PLY vertex: \"" + tokens[i] + "\"" );
+      }
     }
 
     std::shared_ptr<landmark_d> lm =
-- 
2.43.0


From 621aaccc5ba53c536a66d84f9598eef7f6cd639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 10/47] fix: read the lens distortion of a camera

---
 vital/io/eigen_io.h | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/vital/io/eigen_io.h b/vital/io/eigen_io.h
index b90296c..263e72f 100644
--- a/vital/io/eigen_io.h
+++ b/vital/io/eigen_io.h
@@ -39,6 +39,9 @@
 
 #include <iostream>
 #include <cstring>
+#include <sstream>
+#include <string>
+#include <vector>
 
 #include <Eigen/Core>
 
@@ -75,6 +78,45 @@ operator>>( std::istream& s, Matrix< T, M, N >& m )
   return s;
 }
 
+
+/// input stream operator for an Eigen vector of dynamic size
+/**
+ * The vector extends to the end of the first line that is not blank.  It is
+ * empty if there is no such line.
+ *
+ * \throws vital::invalid_data
+ *    Throws an invalid data exception when the line contains anything that is
+ *    not a number.
+ *
+ * \param s an input stream
+ * \param v a vector to stream into
+ */
+template < typename T >
+std::istream&
+operator>>( std::istream& s, Matrix< T, Dynamic, 1 >& v )
+{
+  std::vector< T > values;
+  s >> std::ws;
+  if ( ! s.eof() )
+  {
+    std::string line;
+    std::getline( s, line );
+    std::istringstream ls( line );
+    T value;
+    while ( ls >> value )
+    {
+      values.push_back( value );
+    }
+    if ( ! ls.eof() )
+    {
+      throw kwiver::vital::invalid_data( "Encountered a non-numeric value while "
+                                  "parsing an Eigen::Matrix" );
+    }
+  }
+  v = Matrix< T, Dynamic, 1 >::Map( values.data(), values.size() );
+  return s;
+}
+
 } // end namespace Eigen
 
 #endif // VITAL_EIGEN_IO_H_
-- 
2.43.0


From bedf2dbe082f3e499f8bf690d92d624fdd4e0b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 11/47] fix: do not store undefined values when a feature or
 landmark can not be read

---
 vital/types/feature.cxx  | 4 ++++
 vital/types/landmark.cxx | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/vital/types/feature.cxx b/vital/types/feature.cxx
index 1a3361b..dd3fc3e 100644
--- a/vital/types/feature.cxx
+++ b/vital/types/feature.cxx
@@ -125,6 +125,10 @@ operator>>( std::istream& s, feature_< T >& f )
     >> scale
     >> angle
     >> color;
+  if ( ! s )
+  {
+    return s;
+  }
   f.set_loc( loc );
   f.set_magnitude( magnitude );
   f.set_scale( scale );
diff --git a/vital/types/landmark.cxx b/vital/types/landmark.cxx
index 79682e8..67aeaf3 100644
--- a/vital/types/landmark.cxx
+++ b/vital/types/landmark.cxx
@@ -124,6 +124,10 @@ operator>>( std::istream& s, landmark_< T >& m )
     >> normal
     >> color
     >> observations;
+  if ( ! s )
+  {
+    return s;
+  }
   m.set_loc( loc );
   m.set_scale( scale );
   m.set_normal( normal );
-- 
2.43.0


From 379afa4572aba339299a8d6685261d6ed47e9577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 12/47] fix: image accessors without channel reject images that
 have no channel

image::at(i, j) and operator()(i, j) checked the column and the row only; an
image of depth zero owns no memory, so both read or wrote outside it.
---
 vital/types/image.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vital/types/image.h b/vital/types/image.h
index d0ae048..d6836c7 100644
--- a/vital/types/image.h
+++ b/vital/types/image.h
@@ -233,7 +233,7 @@ public:
    */
   inline rgb_color at( unsigned i, unsigned j ) const
   {
-    if( i >= width_ || j >= height_ )
+    if( i >= width_ || j >= height_ || depth_ == 0 )
     {
       throw std::out_of_range("kwiver::vital::image::at(unsigned, unsigned) const");
     }
@@ -258,7 +258,7 @@ public:
    */
   inline byte& operator()( unsigned i, unsigned j )
   {
-    if( i >= width_ || j >= height_ )
+    if( i >= width_ || j >= height_ || depth_ == 0 )
     {
       throw std::out_of_range("kwiver::vital::image::operator()(unsigned, unsigned)");
     }
@@ -269,7 +269,7 @@ public:
   /// Const access pixels in the first channel of the image
   inline const byte& operator()( unsigned i, unsigned j ) const
   {
-    if( i >= width_ || j >= height_ )
+    if( i >= width_ || j >= height_ || depth_ == 0 )
     {
       throw std::out_of_range("kwiver::vital::image::operator()(unsigned, unsigned) const");
     }
-- 
2.43.0


From e57fbfc12018630f4b3b23565652a5b8dcb27b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 13/47] fix: first and last frame of a track set are those of
 its tracks

first_frame() started its search at zero and so never returned a positive
frame; last_frame() did the same for negative frames.  Empty tracks cover no
frame and do not take part.
---
 vital/types/track_set.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index 2c84c6f..c45db54 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -100,13 +100,15 @@ track_set
 ::last_frame() const
 {
   frame_id_t last_frame = 0;
+  bool found = false;
   const std::vector<track_sptr> all_tracks = this->tracks();
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() > last_frame )
+    if( ! t->empty() && ( ! found || t->last_frame() > last_frame ) )
     {
       last_frame = t->last_frame();
+      found = true;
     }
   }
 
@@ -120,13 +122,15 @@ track_set
 ::first_frame() const
 {
   frame_id_t first_frame = 0;
+  bool found = false;
   const std::vector<track_sptr> all_tracks = this->tracks();
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() < first_frame )
+    if( ! t->empty() && ( ! found || t->first_frame() < first_frame ) )
     {
       first_frame = t->first_frame();
+      found = true;
     }
   }
 
-- 
2.43.0


From 1fa8e957cba7813a22a3a377dad6041ed03417fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 14/47] fix: empty tracks neither start nor end on a frame

An empty track reports frame zero as its first and last frame, so frame zero
selected it as new and terminated, and the features and descriptors of the
last frame were read from its missing last state.
---
 vital/types/track_set.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index c45db54..911b097 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -209,7 +209,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() == frame_number )
+    if( ! t->empty() && t->first_frame() == frame_number )
     {
       new_tracks.push_back(t);
     }
@@ -230,7 +230,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == frame_number )
+    if( ! t->empty() && t->last_frame() == frame_number )
     {
       terminated_tracks.push_back(t);
     }
@@ -279,7 +279,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_features.push_back((t->end()-1)->feat);
     }
@@ -300,7 +300,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_descriptors.push_back((t->end()-1)->desc);
     }
-- 
2.43.0


From bf0968630c8f00f0c36ab21c57a920d22c2a2351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 15/47] fix: keep a plugin library open once it may have
 registered algorithms

---
 vital/algorithm_plugin_manager.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 41b7d30..d17074e 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -247,7 +247,9 @@ public:
                 "more algorithms in plugin module, possibly due to duplicate "
                 "registration: " << module_path );
       // TODO: Throw exception here?
-      DL::CloseLibrary( library );
+
+      // The library stays open, since some of its algorithms may have
+      // been registered.
       return false;
     }
     else
-- 
2.43.0


From 883d0b2890aeb8dd15d0f7f4eb7be25ae7d9cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 16/47] fix: plugins are selected by the name they are
 registered under

A module is recorded under its file name without the library suffix, but
register_plugins( name ) compared the name with the part before the first
dot, so that a module like vital.foo.so could not be loaded by its name.
---
 vital/algorithm_plugin_manager.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index d17074e..9186f95 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -174,7 +174,7 @@ public:
       // suffix and matches a provided module name if one was provided.
 
       if ( ( ST::GetFilenameLastExtension( file ) == shared_library_suffix ) &&
-           ( ( name.size() == 0 ) || ( ST::GetFilenameWithoutExtension( file ) == name ) ) )
+           ( ( name.size() == 0 ) || ( ST::GetFilenameWithoutLastExtension( file ) == name ) ) )
       {
         // Check that we're looking a file
         if ( ! ST::FileIsDirectory( file ) )
-- 
2.43.0


From 35aba394f2dd84e03fe430d63ae16fd9143b85b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 17/47] fix: error handle message buffer has room for its
 terminator

---
 vital/bindings/c/helpers/c_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/helpers/c_utils.h b/vital/bindings/c/helpers/c_utils.h
index 16ec7ae..ed1fd1b 100644
--- a/vital/bindings/c/helpers/c_utils.h
+++ b/vital/bindings/c/helpers/c_utils.h
@@ -70,7 +70,7 @@ static auto m_logger( kwiver::vital::get_logger( "vital.c_utils" ) );
       vital_error_handle_t *PEH_eh_ptr_cast =                                \
         reinterpret_cast<vital_error_handle_t*>(eh_ptr);                     \
       PEH_eh_ptr_cast->error_code = ec;                                      \
-      PEH_eh_ptr_cast->message = (char*)malloc(sizeof(char) * strlen(msg));  \
+      PEH_eh_ptr_cast->message = (char*)malloc(strlen(msg) + 1);             \
       strcpy(PEH_eh_ptr_cast->message, msg);                                 \
     }                                                                        \
   } while(0)
-- 
2.43.0


From 195f166556554ffcce70130b2df593d424ec9e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 18/47] fix: string lists handed to C have room for their
 terminators

---
 vital/bindings/c/helpers/c_utils.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/helpers/c_utils.cxx b/vital/bindings/c/helpers/c_utils.cxx
index f21dff0..6876968 100644
--- a/vital/bindings/c/helpers/c_utils.cxx
+++ b/vital/bindings/c/helpers/c_utils.cxx
@@ -46,7 +46,7 @@ void make_string_list( std::vector<std::string> const &list,
   strings = (char**)malloc( sizeof(char*) * length );
   for( unsigned int i = 0; i < length; i++ )
   {
-    strings[i] = (char*)malloc(sizeof(char) * list[i].length());
+    strings[i] = (char*)malloc(sizeof(char) * (list[i].length() + 1));
     std::strcpy( strings[i], list[i].c_str() );
   }
 }
-- 
2.43.0


From b622c36410051c0def3d82c15becaabd7a588043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 19/47] fix: reading and writing config files through C
 tolerates a NULL error handle

---
 vital/bindings/c/config_block.cxx | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/vital/bindings/c/config_block.cxx b/vital/bindings/c/config_block.cxx
index 6437c1a..79f2ef8 100644
--- a/vital/bindings/c/config_block.cxx
+++ b/vital/bindings/c/config_block.cxx
@@ -404,21 +404,15 @@ read_config_file_helper( vital_error_handle_t* eh, Args... args )
   }
   catch ( kwiver::vital::config_file_not_found_exception const& e )
   {
-    eh->error_code = 1;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 1, e.what() );
   }
   catch ( kwiver::vital::config_file_not_read_exception const& e )
   {
-    eh->error_code = 2;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 2, e.what() );
   }
   catch ( kwiver::vital::config_file_not_parsed_exception const& e )
   {
-    eh->error_code = 3;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 3, e.what() );
   }
 
   return 0;
@@ -478,9 +472,7 @@ vital_config_block_file_write( vital_config_block_t*  cb,
     }
     catch ( kwiver::vital::config_file_write_exception const& e )
     {
-      eh->error_code = 1;
-      eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-      strcpy( eh->message, e.what() );
+      POPULATE_EH( eh, 1, e.what() );
     }
 
                 );
-- 
2.43.0


From 1b8eb71d9594c9197596e5e3b07d5321a5053a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 20/47] fix: vital_algorithm_check_impl_configuration returns
 the result of the check

---
 vital/bindings/c/algorithm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 81f399e..5f73fac 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -122,7 +122,7 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
 {
   STANDARD_CATCH(
     "C::algorithm::check_impl_configuration", eh,
-    kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
+    return kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
       kwiver::vital_c::CONFIG_BLOCK_SPTR_CACHE.get( cb )
     );
   );
-- 
2.43.0


From d101f728734f383f5789de726d67238c39cc49fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:48 +0000
Subject: [PATCH 21/47] fix: no exception leaves vital_image_new_from_data

---
 vital/bindings/c/image.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/bindings/c/image.cxx b/vital/bindings/c/image.cxx
index dce4c51..8afbf79 100644
--- a/vital/bindings/c/image.cxx
+++ b/vital/bindings/c/image.cxx
@@ -71,6 +71,8 @@ vital_image_t* vital_image_new_from_data( unsigned char const *first_pixel,
                                           size_t width, size_t height, size_t depth,
                                           int32_t w_step, int32_t h_step, int32_t d_step )
 {
+  STANDARD_CATCH(
+    "C::image::new_from_data", 0,
   kwiver::vital::image* new_image = new kwiver::vital::image( width, height, depth );
   for ( unsigned int d = 0; d < depth; ++d )
   {
@@ -96,6 +98,8 @@ vital_image_t* vital_image_new_from_data( unsigned char const *first_pixel,
     }
   }
   return reinterpret_cast<vital_image_t*>( new_image );
+  );
+  return 0;
 }
 
 
-- 
2.43.0


From 70f30164b4d7832e4776fe2a4565a7943bf48824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 22/47] fix: the general algorithm functions of the C interface
 have C linkage

---
 vital/bindings/c/algorithm.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 5f73fac..a9faf6f 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -52,7 +52,7 @@ namespace vital_c {
 SharedPointerCache< kwiver::vital::algorithm,
                     vital_algorithm_t > ALGORITHM_SPTR_CACHE( "algorithm" );
 
-}
+} }
 
 
 // ===========================================================================
@@ -127,5 +127,4 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
     );
   );
   return false;
-
-} } // end namespace
+}
-- 
2.43.0


From cef1cd66cf8eef82e67eca97337fb75f8f9291f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:20 +0000
Subject: [PATCH 23/47] fix: the camera map functions of the C interface have C
 linkage

---
 vital/bindings/c/camera_map.cxx | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/vital/bindings/c/camera_map.cxx b/vital/bindings/c/camera_map.cxx
index 2d3c432..df9cd55 100644
--- a/vital/bindings/c/camera_map.cxx
+++ b/vital/bindings/c/camera_map.cxx
@@ -49,7 +49,7 @@ namespace vital_c {
 SharedPointerCache< vital::camera_map,
                     vital_camera_map_t > CAM_MAP_SPTR_CACHE( "camera_map" );
 
-}
+} }
 
 
 /// New, simple camera map
@@ -66,13 +66,13 @@ vital_camera_map_t* vital_camera_map_new( size_t length,
     // Create std::map of the paired items given
     // This assumes that the sptr type defined in the cache type is the same as
     // the type defined in C++-land (which is should be?)
-    vital::camera_map::map_camera_t cmap;
+    kwiver::vital::camera_map::map_camera_t cmap;
     for( size_t i=0; i < length; i++ )
     {
-      cmap[frame_numbers[i]] = vital_c::CAMERA_SPTR_CACHE.get( cameras[i] );
+      cmap[frame_numbers[i]] = kwiver::vital_c::CAMERA_SPTR_CACHE.get( cameras[i] );
     }
-    vital::camera_map_sptr cm_sptr( new vital::simple_camera_map( cmap ) );
-    vital_c::CAM_MAP_SPTR_CACHE.store( cm_sptr );
+    kwiver::vital::camera_map_sptr cm_sptr( new kwiver::vital::simple_camera_map( cmap ) );
+    kwiver::vital_c::CAM_MAP_SPTR_CACHE.store( cm_sptr );
     return reinterpret_cast<vital_camera_map_t*>( cm_sptr.get() );
   );
   return 0;
@@ -85,7 +85,7 @@ void vital_camera_map_destroy( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::destroy", eh,
-    vital_c::CAM_MAP_SPTR_CACHE.erase( cam_map );
+    kwiver::vital_c::CAM_MAP_SPTR_CACHE.erase( cam_map );
   );
 }
 
@@ -96,7 +96,7 @@ size_t vital_camera_map_size( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::size", eh,
-    return vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->size();
+    return kwiver::vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->size();
   );
   return 0;
 }
@@ -111,19 +111,18 @@ void vital_camera_map_get_map( vital_camera_map_t *cam_map,
 {
   STANDARD_CATCH(
     "C::camera_map::get_map", eh,
-    vital::camera_map::map_camera_t map_cams =
-      vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->cameras();
+    kwiver::vital::camera_map::map_camera_t map_cams =
+      kwiver::vital_c::CAM_MAP_SPTR_CACHE.get( cam_map )->cameras();
     *length = map_cams.size();
     *frame_numbers = (unsigned int*)malloc(sizeof(unsigned int) * *length);
     *cameras = (vital_camera_t**)malloc(sizeof(vital_camera_t*) * *length);
     size_t i=0;
-    VITAL_FOREACH( vital::camera_map::map_camera_t::value_type const& p, map_cams )
+    VITAL_FOREACH( kwiver::vital::camera_map::map_camera_t::value_type const& p, map_cams )
     {
       (*frame_numbers)[i] = static_cast< unsigned int >(p.first);
-      vital_c::CAMERA_SPTR_CACHE.store( p.second );
+      kwiver::vital_c::CAMERA_SPTR_CACHE.store( p.second );
       (*cameras)[i] = reinterpret_cast<vital_camera_t*>( p.second.get() );
       ++i;
     }
   );
-
-} }
+}
-- 
2.43.0


From 739ad35181f5e75860b4b1df57d7cd470aac259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:13 +0000
Subject: [PATCH 24/47] fix: invalid_matrix_operation keeps its reason

The public member m_reason was never set.
---
 vital/exceptions/math.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/exceptions/math.cxx b/vital/exceptions/math.cxx
index 8d85e8e..3aad037 100644
--- a/vital/exceptions/math.cxx
+++ b/vital/exceptions/math.cxx
@@ -77,6 +77,7 @@ point_maps_to_infinity
 
 invalid_matrix_operation
 ::invalid_matrix_operation(std::string reason) VITAL_NOTHROW
+  : m_reason(reason)
 {
   m_what = "Invalid operation: " + reason;
 }
-- 
2.43.0


From d56c78fa53027f49326f861649fb96cc09ae8c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:04 +0000
Subject: [PATCH 25/47] fix: converting a covariance copies all of its values

The constructor from a covariance of another type copied N of the
N * ( N + 1 ) / 2 values and left the others uninitialised.
---
 vital/types/covariance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/covariance.h b/vital/types/covariance.h
index 9c0b8e3..1dad0c4 100644
--- a/vital/types/covariance.h
+++ b/vital/types/covariance.h
@@ -68,7 +68,7 @@ public:
   {
     const U* in = other.data();
     T* out = this->data_;
-    for ( unsigned i = 0; i < N; ++i, ++in, ++out )
+    for ( unsigned i = 0; i < data_size; ++i, ++in, ++out )
     {
       *out = static_cast< T > ( *in );
     }
-- 
2.43.0


From a598ae554154cfcc659dfc82428300b98a0c37a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:04 +0000
Subject: [PATCH 26/47] fix: a default constructed covariance is initialised

Features, landmarks and cameras handed out uninitialised memory as
their covariance until one was set.
---
 vital/types/covariance.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/types/covariance.h b/vital/types/covariance.h
index 1dad0c4..9ed52d8 100644
--- a/vital/types/covariance.h
+++ b/vital/types/covariance.h
@@ -53,8 +53,8 @@ public:
   /// Number of unique values in a NxN symmetric matrix
   static const unsigned int data_size = N * ( N + 1 ) / 2;
 
-  /// Default Constructor
-  covariance_< N, T > ( ) { }
+  /// Default Constructor - initialize to identity
+  covariance_< N, T > ( ) : covariance_< N, T > ( T( 1 ) ) { }
 
   /// Copy constructor
   covariance_< N, T > ( const covariance_< N, T > &other )
-- 
2.43.0


From 0f939fefa8999fcac0a9aa92995438443821da02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:04 +0000
Subject: [PATCH 27/47] fix: constructing features and landmarks from their
 base keeps the covariance

---
 vital/types/feature.cxx  | 1 +
 vital/types/landmark.cxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/vital/types/feature.cxx b/vital/types/feature.cxx
index dd3fc3e..46e943a 100644
--- a/vital/types/feature.cxx
+++ b/vital/types/feature.cxx
@@ -88,6 +88,7 @@ feature_< T >
   magnitude_( static_cast< T > ( f.magnitude() ) ),
   scale_( static_cast< T > ( f.scale() ) ),
   angle_( static_cast< T > ( f.angle() ) ),
+  covar_( f.covar() ),
   color_( f.color() )
 {
 }
diff --git a/vital/types/landmark.cxx b/vital/types/landmark.cxx
index 67aeaf3..acb0ce3 100644
--- a/vital/types/landmark.cxx
+++ b/vital/types/landmark.cxx
@@ -86,6 +86,7 @@ landmark_< T >
   : loc_( lm.loc().cast< T > () ),
     scale_( static_cast< T > ( lm.scale() ) ),
     normal_( lm.normal().cast< T > () ),
+    covar_( lm.covar() ),
     color_( lm.color() ),
     observations_( lm.observations() )
 {
-- 
2.43.0


From 45af23f807bbb26788a7979151b1a38d70ec303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:04 +0000
Subject: [PATCH 28/47] fix: a similarity made of an unsuitable matrix is
 initialised

---
 vital/types/similarity.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vital/types/similarity.cxx b/vital/types/similarity.cxx
index 436b373..bdad923 100644
--- a/vital/types/similarity.cxx
+++ b/vital/types/similarity.cxx
@@ -46,7 +46,10 @@ namespace vital {
 template < typename T >
 similarity_< T >
 ::similarity_( const Eigen::Matrix< T, 4, 4 >& M )
-  : m_logger( kwiver::vital::get_logger( "vital.similarity" ) )
+  : scale_( 1 ),
+    rot_(),
+    trans_( 0, 0, 0 ),
+    m_logger( kwiver::vital::get_logger( "vital.similarity" ) )
 {
   if ( ( M( 3, 0 ) != T( 0 ) )
        || ( M( 3, 1 ) != T( 0 ) )
-- 
2.43.0


From 17df54832ada34430ad894b12c276a9845db1f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:04 +0000
Subject: [PATCH 29/47] fix: the Jacobian of the lens distortion has its
 tangential part on the diagonal

Both diagonal contributions were added to the first element, so that
undistort converged slowly or not at all.
---
 vital/types/camera_intrinsics.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/camera_intrinsics.cxx b/vital/types/camera_intrinsics.cxx
index b6b2c3e..5aef4db 100644
--- a/vital/types/camera_intrinsics.cxx
+++ b/vital/types/camera_intrinsics.cxx
@@ -223,7 +223,7 @@ distortion_jacobian( const Eigen::Matrix< T, 2, 1 >& pt,
     J( 0, 0 ) += ay + 3 * ax;
     J( 0, 1 ) += axy;
     J( 1, 0 ) += axy;
-    J( 0, 0 ) += 3 * ay + ax;
+    J( 1, 1 ) += 3 * ay + ax;
   }
   return J;
 }
-- 
2.43.0


From 231a599ab7418648f303659772d431b013bd03bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:25 +0000
Subject: [PATCH 30/47] fix: copies of a dynamic descriptor own their data

The implicit copy shared the array with the original and both deleted
it.
---
 vital/types/descriptor.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/vital/types/descriptor.h b/vital/types/descriptor.h
index 928ddc2..447b051 100644
--- a/vital/types/descriptor.h
+++ b/vital/types/descriptor.h
@@ -39,9 +39,11 @@
 #include <vital/vital_export.h>
 #include <vital/vital_config.h>
 
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <memory>
+#include <utility>
 
 namespace kwiver {
 namespace vital {
@@ -163,6 +165,22 @@ public:
   : data_( new T[len] ),
   length_( len ) { }
 
+  /// Copy Constructor
+  descriptor_dynamic< T > ( const descriptor_dynamic< T >& other )
+  : data_( new T[other.length_] ),
+  length_( other.length_ )
+  {
+    std::copy( other.data_, other.data_ + other.length_, data_ );
+  }
+
+  /// Assignment operator
+  descriptor_dynamic< T >& operator=( descriptor_dynamic< T > other )
+  {
+    std::swap( data_, other.data_ );
+    std::swap( length_, other.length_ );
+    return *this;
+  }
+
   /// Destructor
   virtual ~descriptor_dynamic< T > ( ) { delete [] data_; }
 
-- 
2.43.0


From 7a6a68bb463602d585b3e16a719580181c15e1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:42 +0000
Subject: [PATCH 31/47] fix: assigning a frame homography copies the
 transformation

The copy constructors clone the transformation; the implicit assignment
shared it between the two objects.
---
 vital/types/homography_f2f.cxx | 12 ++++++++++++
 vital/types/homography_f2f.h   |  3 +++
 vital/types/homography_f2w.cxx | 11 +++++++++++
 vital/types/homography_f2w.h   |  3 +++
 4 files changed, 29 insertions(+)

diff --git a/vital/types/homography_f2f.cxx b/vital/types/homography_f2f.cxx
index 0fa6456..713c54f 100644
--- a/vital/types/homography_f2f.cxx
+++ b/vital/types/homography_f2f.cxx
@@ -71,6 +71,18 @@ f2f_homography
 {
 }
 
+
+/// Assignment Operator
+f2f_homography&
+f2f_homography
+::operator=( f2f_homography const &h )
+{
+  this->h_ = h.h_->clone();
+  this->from_id_ = h.from_id_;
+  this->to_id_ = h.to_id_;
+  return *this;
+}
+
 /// Get the homography transformation
 homography_sptr
 f2f_homography
diff --git a/vital/types/homography_f2f.h b/vital/types/homography_f2f.h
index 03d0e02..d29a60e 100644
--- a/vital/types/homography_f2f.h
+++ b/vital/types/homography_f2f.h
@@ -84,6 +84,9 @@ public:
   /// Copy constructor
   f2f_homography( f2f_homography const& h );
 
+  /// Assignment Operator
+  f2f_homography& operator=( f2f_homography const &h );
+
   /// Destructor
   virtual ~f2f_homography() VITAL_DEFAULT_DTOR
 
diff --git a/vital/types/homography_f2w.cxx b/vital/types/homography_f2w.cxx
index 22eccc4..46e66e7 100644
--- a/vital/types/homography_f2w.cxx
+++ b/vital/types/homography_f2w.cxx
@@ -63,6 +63,17 @@ f2w_homography
 {
 }
 
+
+/// Assignment Operator
+f2w_homography&
+f2w_homography
+::operator=( f2w_homography const &h )
+{
+  this->h_ = h.h_->clone();
+  this->frame_id_ = h.frame_id_;
+  return *this;
+}
+
 /// Get the homography transformation
 homography_sptr
 f2w_homography
diff --git a/vital/types/homography_f2w.h b/vital/types/homography_f2w.h
index d8573b7..25aa061 100644
--- a/vital/types/homography_f2w.h
+++ b/vital/types/homography_f2w.h
@@ -58,6 +58,9 @@ public:
   /// Copy Constructor
   f2w_homography( f2w_homography const &h );
 
+  /// Assignment Operator
+  f2w_homography& operator=( f2w_homography const &h );
+
   virtual ~f2w_homography() VITAL_DEFAULT_DTOR
 
   /// Get the homography transformation
-- 
2.43.0


From 28871616f6bcd9bb9175868ef5f27d49e4ae597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:42 +0000
Subject: [PATCH 32/47] fix: matrices can be constructed from those of another
 precision

The converting constructors use members of another specialization that
were not accessible, so that any use failed to compile.
---
 vital/types/essential_matrix.h   | 2 ++
 vital/types/fundamental_matrix.h | 2 ++
 vital/types/homography.h         | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/vital/types/essential_matrix.h b/vital/types/essential_matrix.h
index fd17723..26b7d9b 100644
--- a/vital/types/essential_matrix.h
+++ b/vital/types/essential_matrix.h
@@ -183,6 +183,8 @@ public:
   /// Get a const reference to the underlying translation
   vector_t const& get_translation() const;
 
+  template < typename U > friend class essential_matrix_;
+
 protected:
   /// the rotation used to parameterize the essential matrix
   rotation_<T> rot_;
diff --git a/vital/types/fundamental_matrix.h b/vital/types/fundamental_matrix.h
index 9b9d4b9..f8affb3 100644
--- a/vital/types/fundamental_matrix.h
+++ b/vital/types/fundamental_matrix.h
@@ -136,6 +136,8 @@ public:
 
   // Member Functions --------------------------------------------------------
 
+  template < typename U > friend class fundamental_matrix_;
+
 protected:
   /// the 3x3 matrix used to represent the fundamental matrix
   matrix_t mat_;
diff --git a/vital/types/homography.h b/vital/types/homography.h
index 76642cc..8be5d60 100644
--- a/vital/types/homography.h
+++ b/vital/types/homography.h
@@ -225,6 +225,8 @@ public:
   virtual homography_< T > operator*( homography_< T > const& rhs );
 
 
+  template < typename U > friend class homography_;
+
 protected:
   /// homography transformation matrix
   matrix_t h_;
-- 
2.43.0


From 58097b08b29b5ead394676caf8689e05516cf8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:32 +0000
Subject: [PATCH 33/47] fix: the singletons are not read outside their lock

---
 vital/algorithm_plugin_manager.cxx     | 10 ----------
 vital/logger/kwiver_logger_manager.cxx |  5 -----
 2 files changed, 15 deletions(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 9186f95..8cbd897 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -323,11 +323,6 @@ algorithm_plugin_manager
 {
   static std::mutex local_lock;          // synchronization lock
 
-  if (0 != s_instance)
-  {
-    return *s_instance;
-  }
-
   std::lock_guard<std::mutex> lock(local_lock);
   if (0 == s_instance)
   {
@@ -347,11 +342,6 @@ algorithm_plugin_manager
    static bool first( true );
    static std::mutex local_lock;          // synchronization lock
 
-   if ( ! first )
-   {
-     return false;
-   }
-
    std::lock_guard<std::mutex> lock(local_lock);
    if ( first )
    {
diff --git a/vital/logger/kwiver_logger_manager.cxx b/vital/logger/kwiver_logger_manager.cxx
index 4830c47..9b211b5 100644
--- a/vital/logger/kwiver_logger_manager.cxx
+++ b/vital/logger/kwiver_logger_manager.cxx
@@ -162,11 +162,6 @@ kwiver_logger_manager * kwiver_logger_manager
 {
   static std::mutex local_lock;          // synchronization lock
 
-  if (0 != s_instance)
-  {
-    return s_instance;
-  }
-
   std::lock_guard<std::mutex> lock(local_lock);
   if (0 == s_instance)
   {
-- 
2.43.0


From be39afd6defc3f4e3535cfc65bd015639771b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:32 +0000
Subject: [PATCH 34/47] fix: the executable and module paths are found without
 shared or unterminated buffers

---
 vital/util/get_paths.cxx | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/vital/util/get_paths.cxx b/vital/util/get_paths.cxx
index 70d44f9..50b086f 100644
--- a/vital/util/get_paths.cxx
+++ b/vital/util/get_paths.cxx
@@ -51,20 +51,13 @@ namespace vital{
 std::string
 get_executable_path()
 {
-  static std::string path; // cached path
+  char ppath[4096];
+  int length(0);
+  wai_getExecutablePath( ppath, sizeof ppath, &length );
+  ppath[length] = '\0';
 
-  if ( path.empty() )
-  {
-    char ppath[4096];
-    int length(0);
-    wai_getExecutablePath( ppath, sizeof ppath, &length );
-    ppath[length] = '\0';
-
-    // convert to string
-    path = ppath;
-  }
-
-  return path;
+  // convert to string
+  return ppath;
 }
 
 
@@ -72,20 +65,13 @@ get_executable_path()
 std::string
 get_module_path()
 {
-  static std::string path; // cached path
-
-  if ( path.empty() )
-  {
-    char ppath[4096];
-    int length(0);
-    wai_getModulePath( ppath, sizeof ppath, &length );
-    path[length] = '\0';
-
-    // convert to string
-    path = ppath;
-  }
+  char ppath[4096];
+  int length(0);
+  wai_getModulePath( ppath, sizeof ppath, &length );
+  ppath[length] = '\0';
 
-  return path;
+  // convert to string
+  return ppath;
 }
 
 } }
-- 
2.43.0


From 4db31605e7ee264ca847d68a80e427b406d5ba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:32 +0000
Subject: [PATCH 35/47] fix: threads reading configuration do not share regular
 expression state

---
 vital/config/config_parser.cxx        |  4 ++--
 vital/config/token_expander.cxx       |  2 +-
 vital/kwiversys/RegularExpression.cxx | 18 +++++++++---------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 85fc5a5..97a06f5 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -537,8 +537,8 @@ public:
   {
     // Words are LHS tokens, which start with a letter, and can not end with a ':'
     // A *word* can contain these symbols "- _ : . /"
-    static kwiversys::RegularExpression re_word( "^[a-zA-Z][-a-zA-Z0-9.:/_]+[-a-zA-Z0-9./_]" );
-    static kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
+    static thread_local kwiversys::RegularExpression re_word( "^[a-zA-Z][-a-zA-Z0-9.:/_]+[-a-zA-Z0-9./_]" );
+    static thread_local kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
 
     // Test for end of line while processing
     if ( m_token_line.size() == 0)
diff --git a/vital/config/token_expander.cxx b/vital/config/token_expander.cxx
index 6fd60ce..f7e6146 100644
--- a/vital/config/token_expander.cxx
+++ b/vital/config/token_expander.cxx
@@ -86,7 +86,7 @@ token_expander::
 expand_token( std::string const& initial_string )
 {
   std::string new_value;
-  static kwiversys::RegularExpression exp( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([a-zA-Z0-9._:]+)?\\}" );
+  static thread_local kwiversys::RegularExpression exp( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([a-zA-Z0-9._:]+)?\\}" );
 
   std::string::const_iterator start, end;
   start = initial_string.begin();
diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 598e7ca..488b69a 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -295,11 +295,11 @@ const unsigned char MAGIC = 0234;
 /*
  * Global work variables for compile().
  */
-static const char* regparse;    // Input-scan pointer.
-static       int   regnpar;     // () count.
-static       char  regdummy;
-static       char* regcode;     // Code-emit pointer; &regdummy = don't.
-static       long  regsize;     // Code size.
+static thread_local const char* regparse;    // Input-scan pointer.
+static thread_local       int   regnpar;     // () count.
+static thread_local       char  regdummy;
+static thread_local       char* regcode;     // Code-emit pointer; &regdummy = don't.
+static thread_local       long  regsize;     // Code size.
 
 /*
  * Forward declarations for compile()'s friends.
@@ -863,10 +863,10 @@ static void regoptail (char* p, const char* val) {
 /*
  * Global work variables for find().
  */
-static const char*  reginput;   // String-input pointer.
-static const char*  regbol;     // Beginning of input, for ^ check.
-static const char* *regstartp;  // Pointer to startp array.
-static const char* *regendp;    // Ditto for endp.
+static thread_local const char*  reginput;   // String-input pointer.
+static thread_local const char*  regbol;     // Beginning of input, for ^ check.
+static thread_local const char* *regstartp;  // Pointer to startp array.
+static thread_local const char* *regendp;    // Ditto for endp.
 
 /*
  * Forwards.
-- 
2.43.0


From db19890b8f750a9005d87913aa4a68896f533fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:32 +0000
Subject: [PATCH 36/47] fix: the default logger can be used from several
 threads

---
 vital/logger/default_logger.cxx | 10 +++++++---
 vital/logger/default_logger.h   |  2 ++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index 44910df..4ba536a 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -33,6 +33,7 @@
 #include "default_logger.h"
 #include "kwiver_logger.h"
 
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <chrono>
@@ -204,10 +205,11 @@ private:
 
     char buf[1024];
     time(&t);
-    strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", localtime(&t));
 
     {
-      std::lock_guard< std::mutex > guard( lock ); // serialize access to stream
+      std::lock_guard< std::mutex > guard( lock ); // serialize access to stream and localtime()
+      strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", localtime(&t));
+
       std::ostream* str = &get_stream();
       while ( getline( ss, msg_part ) )
       {
@@ -240,7 +242,7 @@ private:
 
 
   // ##################################################################
-  log_level_t                  m_logLevel;       // current logging level
+  std::atomic< log_level_t >   m_logLevel;       // current logging level
 
   std::mutex                   m_formatter_mtx;
 
@@ -259,6 +261,8 @@ logger_handle_t
 logger_factory_default
 ::get_logger( std::string const& name )
 {
+  std::lock_guard< std::mutex > guard( m_active_loggers_mtx );
+
   // look for logger in the map
   std::map< std::string, logger_handle_t >::iterator it = m_active_loggers.find( name );
   if (it != m_active_loggers.end() )
diff --git a/vital/logger/default_logger.h b/vital/logger/default_logger.h
index e81315e..5001f83 100644
--- a/vital/logger/default_logger.h
+++ b/vital/logger/default_logger.h
@@ -35,6 +35,7 @@
 #include "kwiver_logger_factory.h"
 
 #include <map>
+#include <mutex>
 #include <string>
 
 namespace kwiver {
@@ -71,6 +72,7 @@ public:
   virtual logger_handle_t get_logger( std::string const& name );
 
 private:
+  std::mutex m_active_loggers_mtx;      // serialize access to the loggers
   std::map< std::string, logger_handle_t > m_active_loggers;
 
 }; // end class logger_factory
-- 
2.43.0


From 2a801d8d4abe5a89ec701262b9737375d727167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:32 +0000
Subject: [PATCH 37/47] fix: printing a timestamp does not use the shared
 buffer of ctime()

---
 vital/types/timestamp.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vital/types/timestamp.cxx b/vital/types/timestamp.cxx
index 7c8c8de..6cbc0a8 100644
--- a/vital/types/timestamp.cxx
+++ b/vital/types/timestamp.cxx
@@ -240,7 +240,12 @@ std::string timestamp
 
   if ( this->has_valid_time() )
   {
-    char* p = ctime( &tt ); // this may return null if <tt> is out of range,
+    char ctime_buffer[128];
+#if defined(_WIN32)
+    char* p = ( 0 == ctime_s( ctime_buffer, sizeof ctime_buffer, &tt ) ) ? ctime_buffer : 0;
+#else
+    char* p = ctime_r( &tt, ctime_buffer ); // this may return null if <tt> is out of range,
+#endif
     if ( p )
     {
       char buffer[128];
-- 
2.43.0


From 3c3fd489cc59349d985f869b8c33e3fa45d7db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:32 +0000
Subject: [PATCH 38/47] fix: LOG_ASSERT has balanced braces

---
 vital/logger/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/logger/logger.h b/vital/logger/logger.h
index 7eaf82d..5ab1be1 100644
--- a/vital/logger/logger.h
+++ b/vital/logger/logger.h
@@ -243,7 +243,7 @@ logger_handle_t VITAL_LOGGER_EXPORT get_logger( std::string const& name );
     if ( ! ( cond ) ) {                                        \
       std::stringstream _oss_; _oss_  << "ASSERTION FAILED: (" \
                                       << # cond ")\n"  << msg; \
-      logger->log_error( _oss_.str(), KWIVER_LOGGER_SITE );     \
+      logger->log_error( _oss_.str(), KWIVER_LOGGER_SITE ); }   \
 } while ( 0 )
 
 
-- 
2.43.0


From 57175d86a4228dcda4821464307b7d5ad394b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:32 +0000
Subject: [PATCH 39/47] fix: LOG_FATAL exists as documented

---
 vital/logger/logger.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vital/logger/logger.h b/vital/logger/logger.h
index 5ab1be1..f26fc23 100644
--- a/vital/logger/logger.h
+++ b/vital/logger/logger.h
@@ -171,6 +171,18 @@ logger_handle_t VITAL_LOGGER_EXPORT get_logger( const char * const name );
 logger_handle_t VITAL_LOGGER_EXPORT get_logger( std::string const& name );
 //@}
 
+/**
+ * Logs a message with the FATAL level.
+ * @param logger the logger to be used
+ * @param msg the message string to log.
+ */
+#define LOG_FATAL( logger, msg ) do {                        \
+    if ( logger->is_fatal_enabled() ) {                      \
+      std::stringstream _oss_; _oss_ << msg;                 \
+      logger->log_fatal( _oss_.str(), KWIVER_LOGGER_SITE ); } \
+} while ( 0 )
+
+
 /**
  * Logs a message with the ERROR level.
  * @param logger the logger to be used
-- 
2.43.0


From 312a2c6a0812a86e817420bc44f816b96e58f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:32 +0000
Subject: [PATCH 40/47] fix: a logger plug-in without a factory does not leave
 the manager without one

---
 vital/logger/kwiver_logger_manager.cxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vital/logger/kwiver_logger_manager.cxx b/vital/logger/kwiver_logger_manager.cxx
index 9b211b5..8474af3 100644
--- a/vital/logger/kwiver_logger_manager.cxx
+++ b/vital/logger/kwiver_logger_manager.cxx
@@ -233,16 +233,22 @@ kwiver_logger_manager
     DL::GetSymbolAddress( m_impl->m_libHandle, "kwiver_logger_factory" ) );
   if ( ! fp )
   {
-    DL::CloseLibrary( m_impl->m_libHandle );
-
     std::stringstream str;
     str << "Unable to bind to function: kwiver_logger_factory() "
         << DL::LastError();
+
+    DL::CloseLibrary( m_impl->m_libHandle );
     throw std::runtime_error( str.str() );
   }
 
   // Get pointer to new logger factory object
-  m_impl->m_logFactory.reset( fp() );
+  std::unique_ptr< logger_ns::kwiver_logger_factory > new_factory( fp() );
+  if ( ! new_factory )
+  {
+    throw std::runtime_error( "Logger factory plug-in did not supply a factory: " + lib_name );
+  }
+
+  m_impl->m_logFactory = std::move( new_factory );
 }
 
 } } // end namespace
-- 
2.43.0


From f71836ea3b14889a677c88779af62da226ad8267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:56 +0000
Subject: [PATCH 41/47] fix: the base class of logger factories is exported

---
 vital/logger/kwiver_logger_factory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/logger/kwiver_logger_factory.h b/vital/logger/kwiver_logger_factory.h
index a4ee007..1988c9c 100644
--- a/vital/logger/kwiver_logger_factory.h
+++ b/vital/logger/kwiver_logger_factory.h
@@ -31,6 +31,7 @@
 #ifndef KWIVER_KWIVER_LOGGER_FACTORY_H_
 #define KWIVER_KWIVER_LOGGER_FACTORY_H_
 
+#include <vital/logger/vital_logger_export.h>
 #include "kwiver_logger.h"
 #include <vital/noncopyable.h>
 
@@ -48,7 +49,7 @@ namespace logger_ns {
  * execution (i.e. static initializer time), which is before the
  * initialize method is called.
  */
-class kwiver_logger_factory
+class VITAL_LOGGER_EXPORT kwiver_logger_factory
   : private kwiver::vital::noncopyable
 {
 public:
-- 
2.43.0


From a873f0223af7cba3b5e41a9cdf4e9810fca2b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:56 +0000
Subject: [PATCH 42/47] fix: a logger keeps the name of its factory

---
 vital/logger/kwiver_logger.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vital/logger/kwiver_logger.cxx b/vital/logger/kwiver_logger.cxx
index 34fe49a..2eb44a2 100644
--- a/vital/logger/kwiver_logger.cxx
+++ b/vital/logger/kwiver_logger.cxx
@@ -38,13 +38,14 @@ class kwiver_logger::impl
 {
 public:
   impl( logger_ns::kwiver_logger_factory* f, std::string const& node )
-    : m_factory( f ),
+    : m_factoryName( f->get_factory_name() ),
       m_loggingNode( node )
   { }
 
 
-  /// Pointer back to our factory.
-  logger_ns::kwiver_logger_factory* m_factory;
+  /// Name of the factory that created this logger. Loggers may outlive their
+  /// factory when it is replaced, so a pointer back to it is not enough.
+  std::string m_factoryName;
 
   /// Hierarchical logging node.
   std::string m_loggingNode;
@@ -95,7 +96,7 @@ std::string kwiver_logger
 std::string const& kwiver_logger
 ::get_factory_name() const
 {
-  return m_impl->m_factory->get_factory_name();
+  return m_impl->m_factoryName;
 }
 
 } } // end namespace
-- 
2.43.0


From d55cce17479905d4705a8079143cef6d38862dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:53 +0000
Subject: [PATCH 43/47] fix: timer.h includes what it uses

---
 vital/util/timer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vital/util/timer.h b/vital/util/timer.h
index d524e6f..7a5c34a 100644
--- a/vital/util/timer.h
+++ b/vital/util/timer.h
@@ -39,6 +39,9 @@
 #include <vital/vital_config.h>
 #include <vital/vital_export.h>
 
+#include <iostream>
+#include <string>
+
 namespace kwiver {
 namespace vital {
 
-- 
2.43.0


From 99776edda3c698a302e7fc2a4cae964ecc38261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:11 +0000
Subject: [PATCH 44/47] fix: enumerating a sparse matrix copes with no columns
 and with many empty ones

---
 vital/util/enumerate_matrix.h | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/vital/util/enumerate_matrix.h b/vital/util/enumerate_matrix.h
index a159334..d8d5490 100644
--- a/vital/util/enumerate_matrix.h
+++ b/vital/util/enumerate_matrix.h
@@ -81,6 +81,8 @@ class sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
   protected:
     friend class sparse_matrix_enumerator;
 
+    void skip_empty();
+
     matrix_t const* m_matrix;
     index_t m_end;
     index_t m_outer;
@@ -123,12 +125,9 @@ template < typename ValueT, int Options, typename IndexT >
 sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
 ::iterator(Eigen::SparseMatrix< ValueT, Options, IndexT > const& mat)
   : m_matrix(&mat), m_end(mat.outerSize()), m_outer(0),
-    m_inner(new iterator_t(mat, 0))
+    m_inner(m_end > 0 ? new iterator_t(mat, 0) : 0)
 {
-  if (!(*(this->m_inner)))
-  {
-    ++(*this);
-  }
+  this->skip_empty();
 }
 
 template < typename ValueT, int Options, typename IndexT >
@@ -164,23 +163,32 @@ sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator&
 sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
 ::operator++()
 {
-  if (this->m_inner && !(++(*(this->m_inner))))
+  if (this->m_inner)
+  {
+    ++(*(this->m_inner));
+    this->skip_empty();
+  }
+
+  return *this;
+}
+
+template < typename ValueT, int Options, typename IndexT >
+void
+sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
+::skip_empty()
+{
+  // Move to the next outer vector that has a cell left, if any
+  while (this->m_inner && !(*(this->m_inner)))
   {
     if (++this->m_outer < this->m_end)
     {
       this->m_inner.reset(new iterator_t(*(this->m_matrix), m_outer));
-      if (!(*(this->m_inner)))
-      {
-        return ++(*this);
-      }
     }
     else
     {
       this->m_inner.reset();
     }
   }
-
-  return *this;
 }
 
 /// Create adaptor to iterate over non-zero cells in a sparse matrix
-- 
2.43.0


From 14ef0a33d606a691c787558c3d8b8b4255543b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:21 +0000
Subject: [PATCH 45/47] fix: the wall clock timer measures time: it tested a
 macro that is never defined

---
 vital/util/wall_timer.h.in | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/util/wall_timer.h.in b/vital/util/wall_timer.h.in
index 7dc3c6c..8f18743 100644
--- a/vital/util/wall_timer.h.in
+++ b/vital/util/wall_timer.h.in
@@ -36,9 +36,10 @@
 #ifndef KWIVER_VITAL_WALL_TIMER_H
 #define KWIVER_VITAL_WALL_TIMER_H
 
+#include <vital/vital_config.h>
 #include <vital/util/timer.h>
 
-#if VITAL_USE_CHRONO
+#if VITAL_USE_STD_CHRONO
 
 #include <string>
 #include <chrono>
-- 
2.43.0


From e3a196c337c99369e25b10b2e39a28ca2f5b9e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:15 +0000
Subject: [PATCH 46/47] fix: only a word starts a configuration directive: "=
 endblock" closed a block

---
 vital/config/config_parser.cxx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 97a06f5..90c415c 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -228,6 +228,20 @@ public:
         return;
       } // end EOF
 
+      // ------------------------------------------------------------------
+      // A directive or entry starts with a word. The text of other tokens
+      // must not be taken for a directive (as in "= endblock").
+      if ( token.type != token_t::TK_WORD )
+      {
+        // Unexpected token - syntax error
+        LOG_ERROR( m_logger, "Invalid syntax in line \"" << m_last_line <<
+                   "\" at " << file_path << ":" << m_line_number );
+        m_parse_error = true;
+
+        flush_line(); // force starting a new line
+        continue;
+      }
+
       // ------------------------------------------------------------------
       if ( token.value == "include" )
       {
-- 
2.43.0


From 5b5e706bdbde352864cde5a58bff5638d1fa5f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:15 +0000
Subject: [PATCH 47/47] fix: a configuration directive or entry does not
 continue on the next line

"block" at the end of a line took the first word of the next line as
block name and dropped the rest of that line without an error.
---
 vital/config/config_parser.cxx | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 90c415c..1a40e80 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -300,7 +300,7 @@ public:
         /*
          * Handle "block" <block-name>
          */
-        get_token( in_stream, token ); // get block name
+        get_line_token( in_stream, token ); // get block name
         if ( token.type != token_t::TK_WORD )
         {
           // Unexpected token - syntax error
@@ -363,7 +363,7 @@ public:
          * This is a modifier for a config entry
          */
         rel_path = true;
-        get_token( in_stream, token ); // get next token
+        get_line_token( in_stream, token ); // get next token
       }
 
       // This is supposed to be an LHS token
@@ -381,7 +381,7 @@ public:
       // ------------------------------------------------------------------
       const std::string lhs( token.value ); // save LHS symbol
 
-      get_token( in_stream, token ); // get next token
+      get_line_token( in_stream, token ); // get next token
 
       //
       // Process flags or attributes
@@ -416,7 +416,7 @@ public:
           m_parse_error = true;
         }
 
-        get_token( in_stream, token ); // get next token
+        get_line_token( in_stream, token ); // get next token
       } // end while
 
       // ------------------------------------------------------------------
@@ -610,6 +610,30 @@ public:
   }
 
 
+  // ------------------------------------------------------------------
+  /**
+   * @brief Get next token from the current line.
+   *
+   * A directive or entry does not continue on the next line, so an
+   * error token is supplied if there is nothing left of the current
+   * line.
+   *
+   * @param[in] str Stream to read from
+   * @param token[out] next token from current line
+   */
+  void get_line_token( std::istream& str, token_t & token )
+  {
+    if ( m_token_line.size() == 0 )
+    {
+      token.type = token_t::TK_ERROR;
+      token.value.clear();
+      return;
+    }
+
+    get_token( str, token );
+  }
+
+
   // ------------------------------------------------------------------
   /**
    * @brief Flush remaining line in parser.
-- 
2.43.0

