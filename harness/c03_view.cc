#include "c03_common.hh"
VP_HARNESS(v_leaf) { vp::GridView gv; viewOps(DefaultGlobalBasis(gv, sub<1>(gv))); }
VP_HARNESS(v_power_bl) { vp::GridView gv; viewOps(makeBasis(gv, power<2>(sub<1>(gv),blockedLexicographic()))); }
VP_HARNESS(v_power_fi) { vp::GridView gv; viewOps(makeBasis(gv, power<2>(sub<1>(gv),flatInterleaved()))); }
VP_HARNESS(v_dynamic) { vp::GridView gv; viewOps(makeBasis(gv, power(sub<1>(gv),3,blockedInterleaved()))); }
VP_HARNESS(v_composite) { vp::GridView gv; viewOps(makeBasis(gv, composite(sub<1>(gv),sub<2>(gv)))); }
VP_HARNESS(v_taylorhood_like) { vp::GridView gv; viewOps(makeBasis(gv, composite(power<2>(sub<1>(gv),flatLexicographic()),sub<2>(gv)))); }
VP_HARNESS(v_nonuniform) { vp::GridView gv; viewOps(makeBasis(gv, composite(power<2>(sub<1>(gv),blockedInterleaved()),sub<2>(gv)))); }
VP_HARNESS(update) {
  vp::GridView gv{1}, gv2{2};
  auto basis = makeBasis(gv, power<2>(sub<1>(gv)));
  vp_assert(basis.preBasis().subPreBasis().initialized_==1, "constructing a basis initialises its indices");
  vp_assert(basis.gridView().id==1, "a basis knows its grid view");
  basis.update(gv2);
  vp_assert(basis.gridView().id==2, "update replaces the grid view");
  vp_assert(basis.preBasis().subPreBasis().initialized_==2, "update initialises the indices again");
  auto pb = basis.preBasis();
  vp_assert((basis.dimension()==pb.dimension()) & (basis.size()==pb.size()), "sizes of a basis are those of its pre-basis");
  typename decltype(basis)::SizePrefix p; vp_assert(basis.size(p)==pb.size(), "size of the empty prefix");
  vp_cover("updated");
}
