// Point/ray configurations (homogenised: last coordinate 1 for points, 0 for rays).
#pragma once
#include "geo.h"
namespace shapes
{
   using geo::Mat;
   using geo::Vec;
   // flattened coordinate indices that may be made symbolic: row * d + column
   inline Mat get(long id)
   {
      switch ( id )
      {
         case 0: return {{0, 0, 1}, {3, 0, 1}, {0, 3, 1}};                                                        // triangle
         case 1: return {{0, 0, 1}, {2, 0, 1}, {0, 2, 1}, {2, 2, 1}};                                             // square
         case 2: return {{0, 0, 1}, {2, 0, 1}, {0, 2, 1}, {2, 2, 1}, {1, 1, 1}};                                  // square, one point free
         case 3: return {{1, 0, 1}, {2, 1, 1}, {1, 2, 1}, {0, 1, 1}, {1, 1, 1}, {1, 0, 1}};                       // cross polytope, repeated and inner points
         case 4: return {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};                                                        // quadrant
         case 5: return {{1, 0, 0}, {0, 0, 1}, {0, 2, 1}, {1, 1, 1}};                                             // strip with a ray
         case 6: return {{1, 2, 0}, {2, 1, 0}, {0, 1, 1}, {1, 0, 1}, {1, 1, 1}};
         case 7: return {{0, 0, 1}, {4, 1, 1}, {3, 3, 1}, {1, 4, 1}, {2, 5, 1}, {5, 2, 1}};                       // hexagon like
         case 10: return {{0, 0, 0, 1}, {2, 0, 0, 1}, {0, 2, 0, 1}, {0, 0, 2, 1}};                                // 3-simplex
         case 11: return {{0, 0, 0, 1}, {2, 0, 0, 1}, {0, 2, 0, 1}, {2, 2, 0, 1}, {1, 1, 2, 1}};                  // pyramid
         case 12: return {{0, 0, 0, 1}, {1, 0, 0, 1}, {0, 1, 0, 1}, {1, 1, 0, 1}, {0, 0, 1, 1}, {1, 0, 1, 1}, {0, 1, 1, 1}, {1, 1, 1, 1}}; // cube
         case 13: return {{1, 0, 0, 1}, {-1, 0, 0, 1}, {0, 1, 0, 1}, {0, -1, 0, 1}, {0, 0, 1, 1}, {0, 0, -1, 1}}; // octahedron
         case 14: return {{0, 0, 1, 0}, {0, 0, 0, 1}, {2, 0, 0, 1}, {0, 2, 0, 1}, {2, 2, 0, 1}};                  // square prism, unbounded
         case 15: return {{0, 0, 1, 0}, {0, 1, 0, 0}, {0, 0, 0, 1}, {2, 0, 0, 1}, {1, 1, 1, 1}};
         case 16: return {{0, 0, 0, 1}, {2, 0, 0, 1}, {0, 2, 0, 1}, {0, 0, 2, 1}, {2, 2, 2, 1}, {1, 1, 1, 1}};    // bipyramid
         case 20: return {{0, 0, 0, 0, 1}, {1, 0, 0, 0, 1}, {0, 1, 0, 0, 1}, {0, 0, 1, 0, 1}, {0, 0, 0, 1, 1}, {1, 1, 1, 1, 1}}; // 4-simplex and a point
         case 21: return {{1, 0, 0, 0, 1}, {-1, 0, 0, 0, 1}, {0, 1, 0, 0, 1}, {0, -1, 0, 0, 1}, {0, 0, 1, 0, 1}, {0, 0, -1, 0, 1}, {0, 0, 0, 1, 1}, {0, 0, 0, -1, 1}};
         case 25: return {{6, 0, 0, 1}, {-6, 0, 0, 1}, {0, 6, 0, 1}, {0, -6, 0, 1}, {0, 0, 6, 1}, {0, 0, -6, 1}};    // octahedron with room for points(4)
         case 22: return {{0, 0, 1}, {0, 1, 1}};
         case 40: return {{0, 0, 1}, {1, 1, 1}, {2, 2, 1}};                                                       // segment in the plane
         case 41: return {{1, 1, 1}, {2, 0, 1}, {0, 2, 1}};
         case 42: return {{1, 2, 1}};                                                                             // a point
         case 43: return {{1, 0, 0, 1}, {0, 1, 0, 1}, {0, 0, 1, 1}};                                              // triangle in space
         case 44: return {{0, 0, 1, 1}, {2, 0, 1, 1}, {0, 2, 1, 1}, {2, 2, 1, 1}};                                // square in a plane
         case 45: return {{1, 1, 0, 1}, {2, 2, 1, 1}, {3, 3, 0, 1}, {0, 0, 1, 1}, {1, 1, 1, 1}};                  // in x = y
         case 46: return {{1, 1, 0}, {0, 0, 1}, {1, 1, 1}};                                                       // half line in the plane
         case 47: return {{1, -1, 0, 0}, {0, 0, 0, 1}, {0, 0, 2, 1}};                                             // strip in x + y = 0
         case 48: return {{0, 0, 0, 1}, {1, 2, 3, 1}};                                                            // segment in space
         case 49: return {{0, 1, 0, 1, 1}, {1, 0, 1, 0, 1}, {0, 1, 1, 0, 1}, {1, 0, 0, 1, 1}};                    // x+y=1, z+w=1
         case 50: return {{2, 0, 0, 1}, {0, 2, 0, 1}, {0, 0, 2, 1}, {1, 1, 0, 1}, {0, 1, 1, 1}};
         case 51: return {{0, 0, 1}, {0, 3, 1}};                                                                  // x = 0
         case 52: return {{0, 0, 0, 1}, {0, 3, 0, 1}, {0, 0, 2, 1}};
         case 53: return {{1, 1, -1, 1, 1}, {-1, -1, 0, 0, 1}};                                                   // segment in 4-space
         case 54: return {{-1, 1, -1, 0, 0, 1}, {-1, 0, 0, 0, 0, 1}, {0, -1, 0, 0, 0, 1}, {0, 0, -1, 0, -1, 1}};   // triangle, solid or less in 5-space
         case 55: return {{0, 0, 0, 0, 0, 1}, {1, 1, 1, 1, 1, 1}};                                                // segment in 5-space
         case 56: return {{1, 0, -1, 1, 0}, {0, 1, 1, 0, 1}, {1, 1, 0, 0, 1}};                                    // strip in 4-space
         case 57: return {{1, 0, 1, 1}, {2, 1, 0, 1}, {0, 0, 0, 1}, {3, 1, 1, 1}};                                // parallelogram in space
         case 58: return {{1, 0, 1, 1, 1}, {0, 0, 0, 1, 1}, {1, 0, 1, 1, 1}, {0, 0, 0, 1, 1}, {1, 0, 0, 0, 1}, {0, 1, 0, 1, 1}, {1, 1, 0, 1, 1}, {1, 0, 1, 0, 1}, {0, 1, 1, 0, 1}}; // repeated points, degenerate
         case 59: return {{0, 0, -1, 1, 1, 1}, {-1, 0, 1, -1, 1, 1}, {1, -1, 1, -1, -1, 1}, {-1, 0, 1, -1, 1, 1}, {0, 1, 1, -1, -1, 1}, {-1, 0, 1, 0, 0, 1}, {1, 0, -1, 1, 0, 1}, {0, 1, -1, -1, 1, 1}, {-1, -1, -1, 0, 1, 1}};
         case 60: return {{0, 0, 0, 0, 1}, {1, 0, 0, 0, 1}, {0, 1, 0, 0, 1}, {0, 0, 1, 0, 1}, {1, 0, 1, 0, 1}, {0, 1, 1, 0, 1}, {0, 0, 0, 1, 1}, {1, 0, 0, 1, 1}, {0, 1, 0, 1, 1}}; // triangle x triangle
         case 61: return {{0, 0, 0, 0, 1}, {1, 1, 1, 1, 1}, {-1, 1, -1, 1, 1}, {2, 4, 8, 16, 1}, {-2, 4, -8, 16, 1}, {3, 9, 27, 81, 1}, {-3, 9, -27, 81, 1}}; // cyclic
         case 62: { Mat m; for ( long i = 0; i < 16; ++i ) m.push_back({i & 1, i >> 1 & 1, i >> 2 & 1, i >> 3, 1}); return m; }  // 4-cube
         case 63: return {{0, 0, 0, 0, 0, 1}, {1, 0, 0, 0, 0, 1}, {0, 1, 0, 0, 0, 1}, {0, 0, 1, 0, 0, 1}, {0, 0, 0, 1, 0, 1}, {0, 0, 0, 0, 1, 1}, {1, 1, 1, 1, 1, 1}, {1, 1, 0, 0, 0, 1}}; // 5-simplex and two points
         case 64: return {{1, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 1}, {0, 0, 0, 0, 1}, {0, 0, 0, 1, 1}, {1, 1, 1, 1, 0}}; // unbounded in 4-space
         case 30: return {{0, 1}, {3, 1}, {1, 1}};                                                                // interval
         case 31: return {{1, 0}, {2, 1}};                                                                        // half line
      }
      if ( id >= 900 && id < 1000 )   // a pyramid over a polygon of id - 900 sides, its apex twice: as many facets meet there
      {
         Mat m;
         const long n = id - 900;
         for ( long i = 0; i < n; ++i ) m.push_back({i - n / 2, (i - n / 2) * (i - n / 2), 0, 1});
         m.push_back({0, n * n / 8, 4, 1}); m.push_back({0, n * n / 8, 4, 1});
         return m;
      }
      if ( id >= 1000 && id < 2000 ) { Mat m; for ( long i = 0; i < id - 1000; ++i ) m.push_back({i - (id - 1000) / 2, (i - (id - 1000) / 2) * (i - (id - 1000) / 2), 1}); return m; } // points on a parabola
      if ( id >= 2000 )   // 9 points of {0, 1}^4 (even) or {-1, 0, 1}^4 (odd), repetitions possible
      {
         Mat m;
         uint32_t x = (uint32_t)id * 2654435761u;
         auto next = [&]() { x = x * 1103515245u + 12345u; return (long)(x >> 16) % (id % 2 ? 3 : 2) - id % 2; };
         for ( int i = 0; i < 9; ++i ) { geo::Vec v; for ( int j = 0; j < 4; ++j ) v.push_back(next()); v.push_back(1); m.push_back(v); }
         return m;
      }
      vp_fail("unknown shape");
      return {};
   }
   // n integer points with |x| + |y| + |z| <= 4, the inner ones first
   inline Mat points(long n)
   {
      Mat m;
      for ( long norm = 0; norm <= 4; ++norm )
         for ( long x = -norm; x <= norm; ++x ) for ( long y = -norm; y <= norm; ++y ) for ( long z = -norm; z <= norm; ++z )
            if ( (x < 0 ? -x : x) + (y < 0 ? -y : y) + (z < 0 ? -z : z) == norm && (long)m.size() < n ) m.push_back({x, y, z, 1});
      const size_t distinct = m.size();
      while ( (long)m.size() < n ) m.push_back(m[m.size() - distinct]);   // and again
      return m;
   }
   inline void rotateRows(Mat& m, long k) { Mat r; for ( size_t i = 0; i < m.size(); ++i ) r.push_back(m[(i + (size_t)k) % m.size()]); m = r; }
   // base shape + symbolic offsets in [-m, m] at the coordinates given by the parameters s0..s3
   inline Mat symbolic()
   {
      Mat m = get(vp_param("shape", 0));
      const long range = vp_param("m", 1);
      const long d = (long)m[0].size() - 1;
      static const char* names[] = {"s0", "s1", "s2", "s3", "s4", "s5"};
      for ( int i = 0; i < 6; ++i )
      {
         const long k = vp_param(names[i], -1);
         if ( k < 0 ) continue;
         m[(size_t)(k / d)][(size_t)(k % d)] += vp::in("x", (int)k, -range, range);
      }
      rotateRows(m, vp_param("rot", 0));
      if ( vp_param("rev", 0) ) std::reverse(m.begin(), m.end());
      return m;
   }
   // inequality descriptions, rows (a, b) meaning a*x + b <= 0; all entries may be made symbolic (row * columns + column)
   inline Mat getH(long id)
   {
      switch ( id )
      {
         case 0: return {{-1, 0, 0}, {0, -1, 0}, {1, 0, -2}, {0, 1, -2}};                                       // square
         case 1: return {{-1, 0, 0}, {0, -1, 0}, {1, 1, -2}, {1, 0, -3}};                                       // triangle and a redundant row
         case 2: return {{-1, 0, 0}, {0, -1, 0}, {-1, -1, 1}};                                                  // unbounded
         case 3: return {{-1, 0, 0}, {0, -1, 0}, {1, 0, -3}, {0, 1, -3}, {1, 1, -4}};                           // pentagon
         case 4: return {{-1, 0, 0, 0}, {0, -1, 0, 0}, {0, 0, -1, 0}, {1, 0, 0, -1}, {0, 1, 0, -1}, {0, 0, 1, -1}}; // cube
         case 5: return {{0, 0, -1, 0}, {1, 0, 1, -2}, {-1, 0, 1, -2}, {0, 1, 1, -2}, {0, -1, 1, -2}};          // pyramid, degenerate apex
         case 6: return {{1, -3}, {-1, 0}};                                                                     // interval
         case 7: return {{-1, 1}};                                                                              // half line
         case 8: return {{1, 1, -2}, {-1, -1, 2}, {-1, 0, 0}, {0, -1, 0}};                                      // segment by two opposite rows
         case 9: return {{-1, 0, 0, 0}, {0, -1, 0, 0}, {1, 1, -1, 0}};                                          // unbounded in space
         case 10: return {{1, 0, -1}, {-1, 0, 1}, {0, 1, -2}, {0, -1, 2}};                                      // a point
         case 11: return {{-1, 0, 0, 0, 0}, {0, -1, 0, 0, 0}, {0, 0, -1, 0, 0}, {0, 0, 0, -1, 0}, {1, 1, 1, 1, -2}, {1, 1, 0, 0, -2}};
         case 12: return {{2, 1, -4}, {1, 2, -4}, {-1, 0, 0}, {0, -1, 0}};
         case 13: return {{-1, 1, 0}, {1, -3, 0}};                                                              // a pointed cone
         case 14: return {{-1, 0, 0}, {0, -1, 0}, {1, 0, -2}};                                                  // a strip
         case 15: return {{1, 1, 1, -2}, {1, 1, -1, -2}, {1, -1, 1, -2}, {1, -1, -1, -2}, {-1, 1, 1, -2}, {-1, 1, -1, -2}, {-1, -1, 1, -2}, {-1, -1, -1, -2}}; // octahedron
         case 16: return {{2, 2, -3}, {-3, 1, 0}, {1, -3, 0}};
         case 17: return {{12, 5, -7}, {-4, 3, -2}, {1, -6, -5}};                                               // vertices with large denominators
         case 18: return {{6, 10, 15, -11}, {-1, 0, 0, 0}, {0, -1, 0, 0}, {0, 0, -1, 0}, {4, 0, 0, -3}, {0, 9, 0, -6}};
         case 19: return {{-1, 0, 0, 0, 0, 0}, {0, -1, 0, 0, 0, 0}, {0, 0, -1, 0, 0, 0}, {0, 0, 0, -1, 0, 0}, {0, 0, 0, 0, -1, 0}, {1, 1, 1, 1, 1, -2}}; // simplex
         case 20: return {{-1, 0, 0, 0, 0, 0}, {0, -1, 0, 0, 0, 0}, {0, 0, -1, 0, 0, 0}, {0, 0, 0, -1, 0, 0}, {0, 0, 0, 0, -1, 0}, {1, 1, 0, 0, 0, -1}, {0, 0, 1, 1, 1, -2}, {1, 0, 0, 0, 1, -1}};
         case 21: return {{2, 1, -6}, {1, 2, -6}, {-1, 2, -6}, {-2, 1, -6}, {-2, -1, -6}, {-1, -2, -6}, {1, -2, -6}, {2, -1, -6}, {1, 1, -4}, {-1, -1, -4}, {1, -1, -4}, {-1, 1, -4}}; // twelve sides
      }
      if ( id >= 100 && id < 1000 )   // a square and id - 104 rows that mostly do not cut it
      {
         Mat m;
         for ( long i = 0; i < id - 104; ++i ) m.push_back({i % 7 - 3, i % 5 - 2, -6 - i % 7 - i % 11});
         for ( auto& r : m ) if ( r[0] == 0 && r[1] == 0 ) r[0] = 1;
         m.push_back({1, 0, -2}); m.push_back({0, 1, -2}); m.push_back({-1, 0, 0}); m.push_back({0, -1, 0});
         return m;
      }
      vp_fail("unknown shape");
      return {};
   }
   inline Mat symbolicH()
   {
      Mat m = getH(vp_param("shape", 0));
      const long range = vp_param("m", 1);
      const long d = (long)m[0].size();
      static const char* names[] = {"s0", "s1", "s2", "s3", "s4", "s5"};
      for ( int i = 0; i < 6; ++i )
      {
         const long k = vp_param(names[i], -1);
         if ( k < 0 ) continue;
         m[(size_t)(k / d)][(size_t)(k % d)] += vp::in("x", (int)k, -range, range);
      }
      // other units: the vertices have fractions with these denominators
      static const char* units[] = {"u0", "u1", "u2"};
      for ( size_t j = 0; j < 3; ++j ) if ( vp_param(units[j], 1) != 1 ) for ( auto& r : m ) r[j] *= vp_param(units[j], 1);
      rotateRows(m, vp_param("rot", 0));
      if ( vp_param("rev", 0) ) std::reverse(m.begin(), m.end());
      return m;
   }
   template <typename I>
   std::vector<std::vector<I>> as(const Mat& m) { std::vector<std::vector<I>> r; for ( auto& x : m ) { std::vector<I> y; for ( auto v : x ) y.push_back(I((int)v)); r.push_back(y); } return r; }
   template <>
   inline std::vector<std::vector<int>> as<int>(const Mat& m) { std::vector<std::vector<int>> r; for ( auto& x : m ) r.push_back(std::vector<int>(x.begin(), x.end())); return r; }
}
