#include "c03_common.hh"
// nodes, bindTree and initializeTree for arbitrary offsets
template<class Factory> void tree(const vp::GridView& gv, Factory&& f) {
  auto pb = f(gv);
  vp::Element e{ vp_u64("element",0,1000) }, g{ vp_u64("element2",0,1000) };
  auto node = pb.makeNode();
  std::size_t t=vp_u64("treeOffset",0,1000), o=vp_u64("offset",0,1000), o0=o;
  initializeTree(node,t);
  if (vp_bool("rebind")) bindTree(node,g,vp_u64("oldOffset",0,1000));
  bindTree(node,e,o);
  checkNode(node,e,t,o);
  vp_assert(pb.maxNodeSize()>=o-o0, "no node is larger than the maximal node size");
  vp_cover("tree done");
}
VP_HARNESS(leaf) { vp::GridView gv; tree(gv, sub<1>(gv)); }
VP_HARNESS(power2) { vp::GridView gv; tree(gv, power<2>(sub<1>(gv))); }
VP_HARNESS(power3) { vp::GridView gv; tree(gv, power<3>(sub<1>(gv),flatInterleaved())); }
VP_HARNESS(dynamic) { vp::GridView gv; tree(gv, power(sub<1>(gv),vp_split(vp_u64("k",1,3)))); }
VP_HARNESS(composite2) { vp::GridView gv; tree(gv, composite(sub<1>(gv),sub<2>(gv))); }
VP_HARNESS(composite3) { vp::GridView gv; tree(gv, composite(sub<1>(gv),sub<2>(gv),sub<3>(gv),flatLexicographic())); }
VP_HARNESS(nested1) { vp::GridView gv; tree(gv, composite(power<2>(sub<1>(gv)),sub<2>(gv))); }
VP_HARNESS(nested2) { vp::GridView gv; tree(gv, composite(sub<1>(gv),power<2>(composite(sub<2>(gv),sub<3>(gv))))); }
VP_HARNESS(nested3) { vp::GridView gv; tree(gv, power<2>(power(composite(sub<2>(gv),power<2>(sub<3>(gv))),2))); }
