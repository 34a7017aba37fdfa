// C15: every small mesh over one rank grid; topology compared with an index model, corners with those of the neighbours.
#include "deck.h"
static int P[3], C[3], N[3], nl[3]; static long nst, ntr;
static int rank_of(int a, int b, int c) { int q[3] = { a, b, c }; for (int i = 0; i < 3; i++) q[i] = ((q[i] % P[i]) + P[i]) % P[i]; return q[0] + P[0] * (q[1] + P[1] * q[2]); }
static int64_t lv(int x, int y, int z, const int* n = nl) { return x + (int64_t)(n[0] + 2) * (y + (int64_t)(n[1] + 2) * z); }
static bool near(double a, double b, double rel = 3e-7) { return fabs(a - b) <= rel * (fabs(a) + fabs(b)); }
static void want(bool ok, const char* key, const char* what) { ntr++; if (!ok) vmc_fail("%s: %s (ranks %dx%dx%d, mesh %dx%dx%d)", key, what, P[0], P[1], P[2], N[0], N[1], N[2]); }
// kind 0 periodic, 1 absorbing, 2 metal; over[f]: 0 as partitioned, 1 another wall declared afterwards
static void verify(grid_t* g, int kind, int pbc, const int* fb, const int* pb, const double* lo, const double* hi) {
  nst++; want(g->nx == nl[0] && g->ny == nl[1] && g->nz == nl[2], "size", "the local mesh is not an equal share");
  int64_t nv = (int64_t)(nl[0] + 2) * (nl[1] + 2) * (nl[2] + 2); want(g->nv == nv && g->sx == 1 && g->sy == nl[0] + 2 && g->sz == (nl[0] + 2) * (nl[1] + 2), "size", "strides or voxel count");
  for (int r = 0; r <= world_size; r++) want(g->range[r] == nv * r, "range", "global voxel numbers are not consecutive per rank"); want(g->rangel == nv * world_rank && g->rangeh == nv * (world_rank + 1) - 1, "range", "own range");
  float* x0[3] = { &g->x0, &g->y0, &g->z0 }; float* x1[3] = { &g->x1, &g->y1, &g->z1 }; float d[3] = { g->dx, g->dy, g->dz }, rd[3] = { g->rdx, g->rdy, g->rdz };
  for (int a = 0; a < 3; a++) { double L = hi[a] - lo[a]; double tol = 2e-7 * (fabs(lo[a]) + fabs(hi[a])); want(fabs(*x0[a] - (lo[a] + L * C[a] / P[a])) <= tol && fabs(*x1[a] - (lo[a] + L * (C[a] + 1) / P[a])) <= tol, "corner", "a corner of the subdomain is not where the tiling puts it");
    if (C[a] == 0) want(fabs(*x0[a] - lo[a]) <= 0.6e-7 * fabs(lo[a]), "corner", "the first subdomain does not start at the corner of the box"); if (C[a] == P[a] - 1) want(fabs(*x1[a] - hi[a]) <= 0.6e-7 * fabs(hi[a]), "corner", "the last subdomain does not end at the corner of the box");
    want(near(d[a], L / N[a]) && near(rd[a], N[a] / L), "spacing", "cell size"); }
  want(near(g->dV, (hi[0] - lo[0]) / N[0] * (hi[1] - lo[1]) / N[1] * (hi[2] - lo[2]) / N[2]) && near(g->r8V, 0.125 / ((hi[0] - lo[0]) / N[0] * (hi[1] - lo[1]) / N[1] * (hi[2] - lo[2]) / N[2])), "spacing", "cell volume");
  // corners of the neighbours, bit by bit
  { int mine[6], *all = (int*)malloc(24 * world_size); float f[6] = { g->x0, g->y0, g->z0, g->x1, g->y1, g->z1 }; memcpy(mine, f, 24); mp_allgather_i(mine, all, 6); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { if (C[a] + 1 < P[a]) { int q[3] = { C[0], C[1], C[2] }; q[a]++; int r = rank_of(q[0], q[1], q[2]); if (a == b) want(all[6 * r + a] == mine[3 + a], "shared corner", "a subdomain does not start exactly where its neighbour ends"); else want(all[6 * r + b] == mine[b] && all[6 * r + 3 + b] == mine[3 + b], "shared corner", "neighbours do not share their faces exactly"); } } free(all); }
  for (int f = 0; f < 6; f++) { int a = f % 3, s = f < 3 ? -1 : 1; bool edge = s < 0 ? C[a] == 0 : C[a] == P[a] - 1; int q[3] = { C[0], C[1], C[2] }; q[a] += s; int nb = rank_of(q[0], q[1], q[2]); int b[3] = { 0, 0, 0 }; b[a] = s; bool wall = edge && kind && N[a] > 1; int ebc = wall ? (kind == 1 ? absorb_fields : pec_fields) : nb; if (fb && fb[f]) ebc = fb[f]; want(g->bc[BOUNDARY(b[0], b[1], b[2])] == ebc, "field wall", "the face of a subdomain does not have its neighbour or declared field condition");
    for (int z = 1; z <= nl[2]; z++) for (int y = 1; y <= nl[1]; y++) for (int x = 1; x <= nl[0]; x++) { int v[3] = { x, y, z }; int64_t got = g->neighbor[6 * lv(x, y, z) + f], ex; if (v[a] == (s < 0 ? 1 : nl[a])) { if (pb && pb[f]) ex = pb[f]; else if (wall) ex = kind == 1 ? pbc : reflect_particles; else { v[a] = s < 0 ? nl[a] : 1; ex = nv * nb + lv(v[0], v[1], v[2]); } } else { v[a] += s; ex = nv * world_rank + lv(v[0], v[1], v[2]); } ntr++; if (got != ex) vmc_fail("neighbour: face %d of voxel %d,%d,%d leads to %ld instead of %ld (rank %d of %dx%dx%d, mesh %dx%dx%d, kind %d)", f, x, y, z, (long)got, (long)ex, world_rank, P[0], P[1], P[2], N[0], N[1], N[2], kind); } }
  want(g->bc[BOUNDARY(0, 0, 0)] == world_rank, "field wall", "own rank"); for (int k = -1; k <= 1; k++) for (int j = -1; j <= 1; j++) for (int i = -1; i <= 1; i++) if (abs(i) + abs(j) + abs(k) > 1) want(g->bc[BOUNDARY(i, j, k)] < 0, "field wall", "an edge or corner of the subdomain is joined to a rank");
  for (int z = 0; z <= nl[2] + 1; z++) for (int y = 0; y <= nl[1] + 1; y++) for (int x = 0; x <= nl[0] + 1; x++) if (x < 1 || x > nl[0] || y < 1 || y > nl[1] || z < 1 || z > nl[2]) for (int f = 0; f < 6; f++) want(g->neighbor[6 * lv(x, y, z) + f] < 0, "ghost", "a ghost voxel leads to a voxel"); }
static int ba[16]; static double bl[6]; static grid_t* bg;
static bool refused(void (*f)(void*)) { return vmc_try(f, NULL) == 1; }
extern "C" void rank_main(int) {
  boot_all(); int maxn = (int)vmc_par(3); for (int a = 0; a < 3; a++) P[a] = (int)vmc_par(a); int mode = (int)vmc_par(4); C[0] = world_rank % P[0]; C[1] = world_rank / P[0] % P[1]; C[2] = world_rank / P[0] / P[1];
  const double LO[4][3] = { { 0, 0, 0 }, { -3.7, 1e5, -1e-3 }, { -1, -1, 0.1 }, { 1. / 3, -7, 1e3 } }, HI[4][3] = { { 1, 2, 3 }, { 12.3, 1e5 + 640, 2e-3 }, { 1, 1, 0.7 }, { 10. / 3, -1, 1.1e3 } };
  auto part = [&](grid_t* g, int kind, int pbc, int e) { if (kind == 0) partition_periodic_box(g, LO[e][0], LO[e][1], LO[e][2], HI[e][0], HI[e][1], HI[e][2], N[0], N[1], N[2], P[0], P[1], P[2]); else if (kind == 1) partition_absorbing_box(g, LO[e][0], LO[e][1], LO[e][2], HI[e][0], HI[e][1], HI[e][2], N[0], N[1], N[2], P[0], P[1], P[2], pbc); else partition_metal_box(g, LO[e][0], LO[e][1], LO[e][2], HI[e][0], HI[e][1], HI[e][2], N[0], N[1], N[2], P[0], P[1], P[2]); };
  if (mode == 0) for (nl[2] = 1; nl[2] <= maxn; nl[2]++) for (nl[1] = 1; nl[1] <= maxn; nl[1]++) for (nl[0] = 1; nl[0] <= maxn; nl[0]++) for (int kind = 0; kind < 3; kind++) { for (int a = 0; a < 3; a++) N[a] = nl[a] * P[a]; grid_t* g = new_grid(); for (int t = 0; t < 2; t++) { int e = (nl[0] + nl[1] * 2 + nl[2] * 3 + kind + 2 * t) % 4, pbc = t ? reflect_particles : absorb_particles; part(g, kind, pbc, e); verify(g, kind, pbc, NULL, NULL, LO[e], HI[e]); } delete_grid(g); }
  if (mode == 1) { // declared walls and joins after partitioning: every face, every condition, in pairs
    for (int a = 0; a < 3; a++) nl[a] = 2 + (a == 1), N[a] = nl[a] * P[a]; int fbs[4] = { anti_symmetric_fields, symmetric_fields, pmc_fields, absorb_fields }, pbs[4] = { reflect_particles, absorb_particles, -3, -17 };
    auto dir = [](int f) { int b[3] = { 0, 0, 0 }; b[f % 3] = f < 3 ? -1 : 1; return BOUNDARY(b[0], b[1], b[2]); };
    for (int kind = 0; kind < 3; kind++) for (int f = 0; f < 6; f++) for (int h = 0; h < 6; h++) for (int c = 0; c < 4; c++) { grid_t* g = new_grid(); part(g, kind, absorb_particles, 0); int fb[6] = { 0 }, pb[6] = { 0 }; set_fbc(g, dir(f), fbs[c]); fb[f] = fbs[c]; set_pbc(g, dir(h), pbs[c]); pb[h] = pbs[c]; if (c & 1) { set_fbc(g, dir(h), fbs[(c + 1) & 3]); fb[h] = fbs[(c + 1) & 3]; } verify(g, kind, absorb_particles, fb, pb, LO[0], HI[0]);
      // joined back by hand: as a periodic box on that face
      int a = h % 3, s = h < 3 ? -1 : 1, q[3] = { C[0], C[1], C[2] }; q[a] += s; int nb = rank_of(q[0], q[1], q[2]); join_grid(g, dir(h), nb); nst++; want(g->bc[dir(h)] == nb, "join", "field neighbour"); int64_t nv = g->nv; for (int z = 1; z <= nl[2]; z++) for (int y = 1; y <= nl[1]; y++) for (int x = 1; x <= nl[0]; x++) { int v[3] = { x, y, z }; if (v[a] != (s < 0 ? 1 : nl[a])) continue; int64_t got = g->neighbor[6 * lv(x, y, z) + h]; v[a] = s < 0 ? nl[a] : 1; want(got == nv * nb + lv(v[0], v[1], v[2]), "join", "voxel neighbour"); }
      // edges and corners take conditions of their own and change no voxel
      if (f == 0) { uint64_t h0 = hmix(g->neighbor[6 * lv(1, 1, 1)]); std::vector<int64_t> old(g->neighbor, g->neighbor + 6 * nv); set_fbc(g, BOUNDARY(1, -1, 0), symmetric_fields); set_pbc(g, BOUNDARY(-1, -1, 1), absorb_particles); join_grid(g, BOUNDARY(1, 1, 1), world_rank); want(!memcmp(old.data(), g->neighbor, 48 * nv) && g->bc[BOUNDARY(1, -1, 0)] == symmetric_fields && g->bc[BOUNDARY(1, 1, 1)] == world_rank, "edge", "a condition on an edge or corner"); (void)h0; }
      delete_grid(g); } }
  if (mode == 2) { // chains of subdomains of different lengths, joined by hand along each axis, open or closed
    for (int a = 0; a < 3; a++) for (int closed = 0; closed < 2; closed++) for (int pat = 0; pat < 27; pat++) { auto len = [&](int r) { int p = pat; for (int i = 0; i < r % 3; i++) p /= 3; return 1 + p % 3 + (r >= 3); }; grid_t* g = new_grid(); int m[3] = { 2, 3, 1 }; m[a] = len(world_rank); size_grid(g, m[0], m[1], m[2]); nst++; for (int i = 0; i < 3; i++) N[i] = m[i]; int64_t off = 0; std::vector<int64_t> st; for (int r = 0; r <= world_size; r++) { st.push_back(off); int k[3] = { m[0], m[1], m[2] }; k[a] = len(r); off += (int64_t)(k[0] + 2) * (k[1] + 2) * (k[2] + 2); } for (int r = 0; r <= world_size; r++) want(g->range[r] == st[r], "range", "unequal subdomains are not numbered consecutively");
        int lob[3] = { 0, 0, 0 }, hib[3] = { 0, 0, 0 }; lob[a] = -1; hib[a] = 1; int left = world_rank - 1, right = world_rank + 1; if (closed) left = (left + world_size) % world_size, right %= world_size; if (left >= 0) join_grid(g, BOUNDARY(lob[0], lob[1], lob[2]), left); if (right < world_size) join_grid(g, BOUNDARY(hib[0], hib[1], hib[2]), right);
        for (int z = 1; z <= m[2]; z++) for (int y = 1; y <= m[1]; y++) for (int x = 1; x <= m[0]; x++) for (int f = 0; f < 6; f++) { int v[3] = { x, y, z }, b = f % 3, s = f < 3 ? -1 : 1; int64_t got = g->neighbor[6 * lv(x, y, z, m) + f], ex; if (v[b] == (s < 0 ? 1 : m[b])) { int nb = s < 0 ? left : right; if (b != a || nb < 0 || nb >= world_size) ex = reflect_particles; else { int k[3] = { m[0], m[1], m[2] }; k[a] = len(nb); v[a] = s < 0 ? k[a] : 1; ex = st[nb] + lv(v[0], v[1], v[2], k); } } else { v[b] += s; ex = st[world_rank] + lv(v[0], v[1], v[2], m); } ntr++; if (got != ex) vmc_fail("joined: face %d of voxel %d,%d,%d leads to %ld instead of %ld", f, x, y, z, (long)got, (long)ex); }
        delete_grid(g); }
    // faces that cannot fit
    bg = new_grid(); int odd = world_rank == 1; size_grid(bg, 2, odd ? 2 : 3, odd ? 5 : 2); if (world_size > 1) { nst++; ba[0] = world_rank == 1 ? 0 : 1; if (world_rank < 2 && !refused([](void*) { join_grid(bg, BOUNDARY(1, 0, 0), ba[0]); })) vmc_fail("accepted: a face was joined to one of another size"); } }
  if (mode == 3) { // requests that make no sense
    bg = new_grid(); for (int i = 0; i < 3; i++) { ba[i] = 2 * P[i]; ba[3 + i] = P[i]; } auto bad = [&](const char* what) { nst++; if (!refused([](void*) { partition_periodic_box(bg, 0, 0, 0, 1, 1, 1, ba[0], ba[1], ba[2], ba[3], ba[4], ba[5]); })) vmc_fail("accepted: %s: mesh %dx%dx%d over %dx%dx%d on %d ranks", what, ba[0], ba[1], ba[2], ba[3], ba[4], ba[5], world_size); };
    for (int a = 0; a < 3; a++) { int o = ba[a], q = ba[3 + a]; for (int v : { 0, -1, -2 * P[a] }) { ba[a] = v; bad("no cells"); } ba[a] = o; if (P[a] > 1) for (int v = 1; v <= 3 * P[a]; v++) if (v % P[a]) { ba[a] = v; bad("a mesh that does not divide"); } ba[a] = o; for (int v : { 0, -1, q + 1, 2 * q }) { ba[3 + a] = v; ba[a] = 12 * 35; bad("a rank grid of another size"); } ba[a] = o; ba[3 + a] = q; for (int b = 0; b < 3; b++) if (b != a) { int o1 = ba[3 + a], o2 = ba[3 + b]; ba[3 + a] = -o1; ba[3 + b] = -o2; bad("negative rank counts"); ba[3 + a] = o1; ba[3 + b] = o2; } }
    size_grid(bg, 2, 2, 2); auto ref = [&](const char* what, void (*f)(void*)) { nst++; if (!refused(f)) vmc_fail("accepted: %s", what); };
    ref("joining a face to a rank that does not exist", [](void*) { join_grid(bg, BOUNDARY(1, 0, 0), world_size); }); ref("joining a face to a negative rank", [](void*) { join_grid(bg, BOUNDARY(1, 0, 0), -1); }); ref("joining the inside", [](void*) { join_grid(bg, BOUNDARY(0, 0, 0), 0); }); ref("joining face 27", [](void*) { join_grid(bg, 27, 0); }); ref("joining face -1", [](void*) { join_grid(bg, -1, 0); }); ref("no grid", [](void*) { join_grid(NULL, BOUNDARY(1, 0, 0), 0); });
    for (ba[7] = -8; ba[7] <= 3; ba[7]++) if (ba[7] != anti_symmetric_fields && ba[7] != symmetric_fields && ba[7] != pmc_fields && ba[7] != absorb_fields) ref("an unknown field condition", [](void*) { set_fbc(bg, BOUNDARY(0, 1, 0), ba[7]); }); for (ba[7] = 0; ba[7] < 3; ba[7]++) ref("a voxel as particle condition", [](void*) { set_pbc(bg, BOUNDARY(0, 1, 0), ba[7]); }); ref("particle condition of the inside", [](void*) { set_pbc(bg, BOUNDARY(0, 0, 0), -1); }); ref("field condition of the inside", [](void*) { set_fbc(bg, BOUNDARY(0, 0, 0), -1); });
    for (int a = 0; a < 3; a++) for (int v : { 0, -1 }) { for (int i = 0; i < 3; i++) ba[8 + i] = i == a ? v : 2; ref("a local mesh without cells", [](void*) { size_grid(bg, ba[8], ba[9], ba[10]); }); } }
  if (bg) delete_grid(bg);
  vmc_count("states", nst); vmc_count("transitions", ntr); vmc_count("distinct", nst); vmc_count("traces", nst);
  mp_barrier(); halt_services();
}
