#include "c03_common.hh"
VP_HARNESS(s_power) { vp::GridView gv; auto b=makeBasis(gv, power<2>(sub<1>(gv),flatLexicographic())); if (vp_bool("first")) subspaceView(b,subspaceBasis(b,0),[](auto& t) -> auto& { return t.child(0); }); else subspaceView(b,subspaceBasis(b,1),[](auto& t) -> auto& { return t.child(1); }); }
VP_HARNESS(s_dynamic) { vp::GridView gv; auto b=makeBasis(gv, power(sub<1>(gv),2,blockedInterleaved())); std::size_t i=vp_split(vp_u64("child",0,1)); subspaceView(b,subspaceBasis(b,i),[i](auto& t) -> auto& { return t.child(i); }); }
VP_HARNESS(s_composite0) { vp::GridView gv; auto b=makeBasis(gv, composite(power<2>(sub<1>(gv)),sub<2>(gv))); subspaceView(b,subspaceBasis(b,_0),[](auto& t) -> auto& { return t.child(_0); }); }
VP_HARNESS(s_composite1) { vp::GridView gv; auto b=makeBasis(gv, composite(power<2>(sub<1>(gv)),sub<2>(gv))); subspaceView(b,subspaceBasis(b,_1),[](auto& t) -> auto& { return t.child(_1); }); }
VP_HARNESS(s_composite01) { vp::GridView gv; auto b=makeBasis(gv, composite(power<2>(sub<1>(gv)),sub<2>(gv))); subspaceView(b,subspaceBasis(b,_0,1),[](auto& t) -> auto& { return t.child(_0).child(1); }); }
VP_HARNESS(s_root) { vp::GridView gv; auto b=makeBasis(gv, power<2>(sub<1>(gv))); subspaceView(b,subspaceBasis(b,Dune::TypeTree::treePath()),[](auto& t) -> auto& { return t; }); }
VP_HARNESS(s_nested) { vp::GridView gv; auto b=makeBasis(gv, composite(power<2>(sub<1>(gv)),sub<2>(gv))); auto s=subspaceBasis(b,_0); std::size_t i=vp_split(vp_u64("child",0,1)); subspaceView(b,subspaceBasis(s,i),[i](auto& t) -> auto& { return t.child(_0).child(i); }); }
