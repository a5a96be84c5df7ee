// PARTS 3
// transpose: every element at its permuted position; the kernels with arbitrary dimensions and strides
#include "ref.hpp"
using namespace ref;

template<typename T, typename S>
void small(Rng& r) {
   auto t = random_tensor<T, S>(r, r(0, 6));
   auto a = read(t);
   auto to = a.names;
   r.shuffle(to);
   g_desc = show(t) + " -> ";
   for (auto& n : to) g_desc += n;
   auto tt = t.transpose(N(to));
   same(read(tt), transposed(a, to), "transpose");
   same(read(t), a, "operand of transpose");
}

// larger tensors without symmetry, dimensions chosen around the tile sizes; checked by offsets, not by maps
template<typename T>
void large(Rng& r) {
   int rank = r(1, 5);
   static const Size big[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 100};
   std::vector<Size> dim;
   Size total = 1;
   Size cap = r.coin(3) ? 300000 : 30000;
   for (int i = 0; i < rank; i++) {
      Size d = r.coin(3) ? Size(r(1, 4)) : big[r(0, 18)];
      if (total * d > cap) d = r(1, 2);
      total *= d;
      dim.push_back(d);
   }
   if (r.coin(5) && rank >= 2) { // force a big two-dimensional problem
      dim.assign(2, 1);
      dim[0] = big[r(6, 18)] * r(1, 5);
      dim[1] = big[r(6, 18)] * r(1, 5);
      rank = 2;
   }
   r.shuffle(dim);
   total = 1;
   for (auto d : dim) total *= d;
   bool run = r.coin(12); // a long contiguous run that stays in place
   if (run) {
      rank = 3;
      dim = {Size(r(2, 3)), Size(r(2, 3)), Size(r(2, 66000))};
      if (r.coin()) dim[2] = Size(r(65530, 65560));
      total = dim[0] * dim[1] * dim[2];
   }
   std::vector<int> plan(rank); // destination k takes source plan[k]
   for (int i = 0; i < rank; i++) plan[i] = i;
   r.shuffle(plan);
   if (run) plan = {1, 0, 2};
   std::vector<DefaultName> names, to;
   std::vector<Edge<NoSymmetry>> edges;
   g_desc = "dims";
   for (int i = 0; i < rank; i++) {
      names.push_back(DefaultName(std::string(1, char('A' + i))));
      edges.push_back(Edge<NoSymmetry>(dim[i]));
      g_desc += " " + std::to_string(dim[i]);
   }
   g_desc += " order";
   for (int i : plan) {
      to.push_back(names[i]);
      g_desc += " " + std::to_string(i);
   }
   auto t = Tensor<T, NoSymmetry>(names, edges);
   auto& b = t.core->blocks.begin()->second;
   for (Size i = 0; i < total; i++) b[i] = T(i % 8388593); // exactly representable even as float
   auto tt = t.transpose(to);
   auto& c = tt.core->blocks.begin()->second;
   if (c.size() != total) report("transpose changed the number of elements");
   std::vector<Size> stride(rank);
   Size s = 1;
   for (int i = rank; i-- > 0;) {
      stride[i] = s;
      s *= dim[i];
   }
   std::vector<Size> idx(rank, 0);
   for (Size o = 0; o < total; o++) {
      Size so = 0;
      for (int k = 0; k < rank; k++) so += idx[k] * stride[plan[k]];
      if (c[o] != b[so]) report("element " + std::to_string(o) + " of the result should be source element " + std::to_string(so));
      for (int k = rank; k-- > 0;) {
         if (++idx[k] < dim[plan[k]]) break;
         idx[k] = 0;
      }
   }
}

// the data-movement entry point itself, with strided sub-blocks on both sides and canaries around everything
template<typename T>
void strided(Rng& r) {
   int rank = r(0, 5);
   std::vector<Size> ds, full_s, full_d;
   pmr::vector<Rank> s2d(rank), d2s(rank);
   for (int i = 0; i < rank; i++) d2s[i] = i;
   {
      std::vector<Rank> v(d2s.begin(), d2s.end());
      r.shuffle(v);
      for (int i = 0; i < rank; i++) d2s[i] = v[i];
   }
   for (int i = 0; i < rank; i++) s2d[d2s[i]] = i;
   pmr::vector<Size> dim_s(rank), dim_d(rank), ld_s(rank), ld_d(rank);
   Size total = 1;
   g_desc = "strided dims";
   for (int i = 0; i < rank; i++) {
      Size d = r.coin(20) ? 0 : r.coin(6) ? Size(r(15, 40)) : Size(r(1, 6));
      if (total * d > 20000) d = 2;
      dim_s[i] = d;
      dim_d[s2d[i]] = d;
      total *= d;
      g_desc += " " + std::to_string(d);
   }
   // row-major strides with optional padding
   auto leadings = [&](const pmr::vector<Size>& dim, pmr::vector<Size>& ld) {
      Size s = 1;
      for (int i = rank; i-- > 0;) {
         ld[i] = s;
         s *= std::max<Size>(dim[i], 1) + (r.coin(3) ? r(1, 3) : 0);
      }
      return s;
   };
   Size ss = leadings(dim_s, ld_s), sd = leadings(dim_d, ld_d);
   bool parity = r.coin();
   g_desc += " plan";
   for (auto x : s2d) g_desc += " " + std::to_string(x);
   g_desc += " source strides";
   for (auto x : ld_s) g_desc += " " + std::to_string(x);
   g_desc += " destination strides";
   for (auto x : ld_d) g_desc += " " + std::to_string(x);
   g_desc += parity ? " negated" : "";
   // exact-size buffers, so that the address sanitizer sees any access outside
   Size last_s = 0, last_d = 0;
   for (int i = 0; i < rank; i++)
      if (dim_s[i]) {
         last_s += (dim_s[i] - 1) * ld_s[i];
         last_d += (dim_d[s2d[i]] - 1) * ld_d[s2d[i]];
      }
   Size ns = total ? last_s + 1 : 0, nd = total ? last_d + 1 : 0;
   std::vector<T> src(ns), dst(nd, T(-777)), want(nd, T(-777));
   src.shrink_to_fit();
   dst.shrink_to_fit();
   for (Size i = 0; i < ns; i++) src[i] = T(i + 1);
   std::vector<Size> idx(rank, 0);
   if (total)
      while (true) {
         Size a = 0, b = 0;
         for (int i = 0; i < rank; i++) {
            a += idx[i] * ld_s[i];
            b += idx[i] * ld_d[s2d[i]];
         }
         want[b] = parity ? -src[a] : src[a];
         int k = rank;
         while (k-- > 0) {
            if (++idx[k] < dim_s[k]) break;
            idx[k] = 0;
         }
         if (k < 0) break;
      }
   if (total == 0 && rank) return; // the library's callers move no empty blocks through strides
   do_transpose(src.data(), dst.data(), s2d, d2s, dim_s, dim_d, ld_s, ld_d, Rank(rank), total, parity);
   for (Size i = 0; i < nd; i++)
      if (dst[i] != want[i]) {
         std::ostringstream o;
         o << "destination element " << i << " is " << dst[i] << " but should be " << want[i];
         report(o.str());
      }
}

int main(int argc, char** argv) {
   return drive(
         argc,
         argv,
         {
#if IN(0)
         {"transpose<double,none>", small<double, NoSymmetry>},
          {"transpose<complex,u1>", small<std::complex<double>, U1Symmetry>},
          {"transpose<double,z2>", small<double, Z2Symmetry>},
          {"transpose<double,fermi>", small<double, FermiSymmetry>},
          {"transpose<double,fermi-u1>", small<double, FermiU1Symmetry>},
          {"transpose<float,fermi-z2>", small<float, FermiZ2Symmetry>},
#endif
#if IN(1)
          {"large<double>", large<double>},
          {"large<float>", large<float>},
          {"large<complex>", large<std::complex<double>>},
#endif
#if IN(2)
          {"strided<double>", strided<double>},
          {"strided<complex>", strided<std::complex<double>>},
          {"strided<float>", strided<float>},
#endif
         });
}
