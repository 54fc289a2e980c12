// Abstract grid: reference elements are the real ones of dune-geometry, all
// sizes, indices, ids and geometry mappings are uninterpreted functions that are
// only constrained by the contract of the Dune grid interface.
#pragma once
#include "prelude.hh"
#include <vector>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/geometry/type.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/grid/common/gridenums.hh>
#include <dune/grid/common/partitionset.hh>
#include <dune/grid/common/rangegenerators.hh>

namespace vg {
using u64 = std::uint64_t;
constexpr u64 maxIndex = 1u<<20;
using Dune::GeometryType;

struct Yes { static constexpr bool value = true; };

// kind 0: element geometry, 1: geometry in father, 2: intersection
inline bool identity=false;   // affine elements only: all elements have the shape of the reference element
template<int mydim, int cdim, int kind=0> struct Geometry {
  static constexpr int mydimension = mydim, coorddimension = cdim;
  using ctype = double; using Volume = double;
  using LocalCoordinate = Dune::FieldVector<double,mydim>;
  using GlobalCoordinate = Dune::FieldVector<double,cdim>;
  using Jacobian = Dune::FieldMatrix<double,cdim,mydim>;
  using JacobianTransposed = Dune::FieldMatrix<double,mydim,cdim>;
  using JacobianInverseTransposed = Dune::FieldMatrix<double,cdim,mydim>;
  using JacobianInverse = Dune::FieldMatrix<double,mydim,cdim>;
  static constexpr const char* n(const char* a, const char* b, const char* c) { return kind==0 ? a : kind==1 ? b : c; }
  template<int d> static double ev(const char* name, u64 k, const Dune::FieldVector<double,d>& x) {
    return vp_ufr(name, k, d>0 ? x[0] : 0., d>1 ? x[d>1?1:0] : 0., d>2 ? x[d>2?2:0] : 0.);
  }
  u64 id=0; GeometryType gt;
  GeometryType type() const { return gt; }
#ifdef VG_AFFINE
  // affine elements: x = a + J xi with arbitrary a and invertible J; orientation of the element arbitrary
  bool affine() const { return true; }
  bool id_() const { return kind==0 && identity; }
  double A(int i) const { return id_() ? 0. : ev<0>(n("origin","giforigin","isorigin"),id*16+i,{}); }
  double J(int i, int j) const { return id_() ? (i==j) : ev<0>(n("jac","gifjac","isjac"),id*16+i*4+j,{}); }
  GlobalCoordinate global(const LocalCoordinate& x) const { GlobalCoordinate y; for (int i=0;i<cdim;++i) { y[i]=A(i); for (int j=0;j<mydim;++j) y[i]+=J(i,j)*x[j]; } return y; }
  double minor(int i, int j) const { // cofactor of J(j,i)
    if constexpr (cdim==1) return 1; else if constexpr (cdim==2) return (i==j) ? J(1-i,1-j) : -J(i,j); else { int a=(j+1)%3,b=(j+2)%3,c=(i+1)%3,d=(i+2)%3; return J(a,c)*J(b,d)-J(a,d)*J(b,c); } }
  double det() const { static_assert(mydim==cdim); double s=0; for (int i=0;i<cdim;++i) s+=J(i,0)*minor(0,i); if (!id_()) { if (vp_split(vp_uf("orientation",0,1,id,0,0,0))) vp_assume(s>0); else vp_assume(s<0); } return s; }
  double integrationElement(const LocalCoordinate&) const { if (id_()) return 1; double s=det(); return vp_split(vp_uf("orientation",0,1,id,0,0,0)) ? s : -s; }
  Volume volume() const { double v=vp_ufr("volume",id,0,0,0); vp_assume(v>0); return v; }
  JacobianInverse jacobianInverse(const LocalCoordinate&) const { JacobianInverse K; double s=det(); for (int i=0;i<mydim;++i) for (int j=0;j<cdim;++j) K[i][j]=minor(i,j)/s; return K; }
  JacobianInverseTransposed jacobianInverseTransposed(const LocalCoordinate& x) const { JacobianInverseTransposed K; auto T=jacobianInverse(x); for (int i=0;i<cdim;++i) for (int j=0;j<mydim;++j) K[i][j]=T[j][i]; return K; }
  Jacobian jacobian(const LocalCoordinate&) const { Jacobian K; for (int i=0;i<cdim;++i) for (int j=0;j<mydim;++j) K[i][j]=J(i,j); return K; }
  JacobianTransposed jacobianTransposed(const LocalCoordinate&) const { JacobianTransposed K; for (int i=0;i<mydim;++i) for (int j=0;j<cdim;++j) K[i][j]=J(j,i); return K; }
#else
  bool affine() const { return false; }
  GlobalCoordinate global(const LocalCoordinate& x) const { GlobalCoordinate y; for (int i=0;i<cdim;++i) y[i]=ev(n("global","gifglobal","isglobal"),id*16+i,x); return y; }
  LocalCoordinate local(const GlobalCoordinate& x) const { LocalCoordinate y; for (int i=0;i<mydim;++i) y[i]=ev(n("local","giflocal","islocal"),id*16+i,x); return y; }
  Volume volume() const { double v=vp_ufr("volume",id,0,0,0); vp_assume(v>0); return v; }
  double integrationElement(const LocalCoordinate& x) const { return ev("intel",id,x); }
  JacobianInverse jacobianInverse(const LocalCoordinate& x) const { JacobianInverse J; for (int i=0;i<mydim;++i) for (int j=0;j<cdim;++j) J[i][j]=ev("jinv",id*16+i*4+j,x); return J; }
  JacobianInverseTransposed jacobianInverseTransposed(const LocalCoordinate& x) const { JacobianInverseTransposed J; for (int i=0;i<cdim;++i) for (int j=0;j<mydim;++j) J[i][j]=ev("jinv",id*16+j*4+i,x); return J; }
  Jacobian jacobian(const LocalCoordinate& x) const { Jacobian J; for (int i=0;i<cdim;++i) for (int j=0;j<mydim;++j) J[i][j]=ev("jac",id*16+i*4+j,x); return J; }
  JacobianTransposed jacobianTransposed(const LocalCoordinate& x) const { JacobianTransposed J; for (int i=0;i<mydim;++i) for (int j=0;j<cdim;++j) J[i][j]=ev("jac",id*16+j*4+i,x); return J; }
#endif
  int corners() const { return Dune::referenceElement<double,mydim>(gt).size(mydim); }
  GlobalCoordinate corner(int i) const { return global(Dune::referenceElement<double,mydim>(gt).position(i,mydim)); }
  GlobalCoordinate center() const { return global(Dune::referenceElement<double,mydim>(gt).position(0,0)); }
};
template<int mydim,int cdim,int kind> auto referenceElement(const Geometry<mydim,cdim,kind>& g) { return Dune::referenceElement<double,mydim>(g.gt); }

template<int cd, int dim, int dow> struct Entity {
  static constexpr int codimension = cd, dimension = dim, mydimension = dim-cd, dimensionworld = dow;
  using Geometry = vg::Geometry<dim-cd,dow>;
  u64 id=0; GeometryType gt;
  GeometryType type() const { return gt; }
  Geometry geometry() const { return {id,gt}; }
  bool operator==(const Entity& o) const { return id==o.id; }
  bool operator!=(const Entity& o) const { return id!=o.id; }
};
// elements: identified by id; the hierarchy is given by uninterpreted functions
template<int dim, int dow> struct HIterator;
template<int dim, int dow> struct Entity<0,dim,dow> {
  static constexpr int codimension = 0, dimension = dim, mydimension = dim, dimensionworld = dow;
  using Geometry = vg::Geometry<dim,dow>; using LocalGeometry = vg::Geometry<dim,dim,1>;
  template<int cd> struct Codim { using Entity = vg::Entity<cd,dim,dow>; using Geometry = vg::Geometry<dim-cd,dow>; };
  struct EntitySeed { u64 id; };
  using HierarchicIterator = HIterator<dim,dow>;
  u64 id=0; GeometryType gt; int lvl=0;
  GeometryType type() const { return gt; }
  Geometry geometry() const { return {id,gt}; }
  int level() const { return lvl; }
  bool operator==(const Entity& o) const { return id==o.id; }
  bool operator!=(const Entity& o) const { return id!=o.id; }
  unsigned int subEntities(unsigned int cd) const { return Dune::referenceElement<double,dim>(gt).size(cd); }
  template<int cd> vg::Entity<cd,dim,dow> subEntity(int i) const {
    if constexpr (cd==0) return *this;
    else return { vp_uf("subEntity",0,maxIndex,id,cd,i,0), Dune::referenceElement<double,dim>(gt).type(i,cd) };
  }
  // an element has boundary intersections exactly if one of its intersections is on the boundary
  bool hasBoundaryIntersections() const { bool r=false; for (u64 n=0;n<subEntities(1);++n) r|=vp_split(vp_uf("boundary",0,1,id,n,0,0)); return r; }
  bool hasFather() const { return lvl>0; }
  Entity father() const { vp_assert(lvl>0,"only elements with a father are asked for it"); return { vp_uf("father",0,maxIndex,id,0,0,0), gt, lvl-1 }; }
  LocalGeometry geometryInFather() const { vp_assert(lvl>0,"only elements with a father are asked for their geometry in it"); return { id, gt }; }
  HierarchicIterator hbegin(int maxLevel) const { vp_assert(maxLevel==lvl+1,"children are the descendants up to the next level"); return {this,0}; }
  HierarchicIterator hend(int) const { return {this,children}; }
  static constexpr unsigned children = 2;
  Dune::PartitionType partitionType() const { return Dune::InteriorEntity; }
};
template<int dim, int dow> struct HIterator {
  using E = Entity<0,dim,dow>; const E* e; unsigned i; E c;
  HIterator(const E* e_, unsigned i_) : e(e_), i(i_) { set(); }
  void set() { c = E{ vp_uf("child",0,maxIndex,e->id,i,0,0), e->gt, e->lvl+1 }; }
  const E& operator*() const { return c; }
  const E* operator->() const { return &c; }
  HIterator& operator++() { ++i; set(); return *this; }
  bool operator==(const HIterator& o) const { return i==o.i; }
  bool operator!=(const HIterator& o) const { return i!=o.i; }
};
template<int cd,int dim,int dow> auto referenceElement(const Entity<cd,dim,dow>& e) { return Dune::referenceElement<double,dim-cd>(e.gt); }

template<int dim, int dow=dim> struct GridView;

template<int dim, int dow> struct IdSet {
  static constexpr int dimension = dim; using IdType = u64;
  using E = Entity<0,dim,dow>;
  template<class En> IdType id(const En& e) const { return e.id; }
  // ids of the vertices of the first elements, where a harness names them (distinct numbers)
  u64 firstNamed=0, named=0, vertexIds[4][8]={};
  static u64 raw(const E& e, int i, unsigned cd) { return vp_uf("subId",0,maxIndex,e.id,i,cd,0); }
  // contract of the id set: distinct sub-entities have distinct ids
  IdType subId(const E& e, int i, unsigned cd) const {
    if (cd==dim && e.id>=firstNamed && e.id<named) return vertexIds[e.id][i];
    u64 r=raw(e,i,cd); int n=Dune::referenceElement<double,dim>(e.gt).size(cd);
    for (int j=0;j<n;++j) if (j!=i) vp_assume(raw(e,j,cd)!=r);
    return r;
  }
};
template<int dim, int dow=dim> struct Grid {
  static constexpr int dimension = dim, dimensionworld = dow;
  using ctype = double;
  using GlobalIdSet = IdSet<dim,dow>; using LocalIdSet = IdSet<dim,dow>;
  struct Traits { using GlobalIdSet = IdSet<dim,dow>; using LocalIdSet = IdSet<dim,dow>; template<int cd> struct Codim { using Entity = vg::Entity<cd,dim,dow>; }; };
  template<int cd> struct Codim { using Entity = vg::Entity<cd,dim,dow>; using Geometry = vg::Geometry<dim-cd,dow>; using LocalGeometry = vg::Geometry<dim-cd,dim,1>; struct EntitySeed {}; };
  GlobalIdSet ids;
  const GlobalIdSet& globalIdSet() const { return ids; }
  const GlobalIdSet& localIdSet() const { return ids; }
};

template<int dim, int dow> struct IndexSet {
  static constexpr int dimension = dim; using IndexType = std::size_t; using Types = std::vector<GeometryType>;
  using E = Entity<0,dim,dow>;
  u64 gv=0;
  Types types_[dim+1];
  const Types& types(int cd) const { return types_[cd]; }
  // sub-entity (g.s,g.c) of element 1 is (g.s0,g.c) of element 0 if glued
  struct Glue { bool on=false; int c=0, s0=0, s1=0; } glue;
  // entities of the codimensions marked fixed are numbered consecutively in the order of the elements
  bool fixed[dim+1]={}; std::vector<GeometryType> elementTypes;
  // or they have the numbers a harness gives (one geometry type in the codimension)
  std::vector<std::vector<std::size_t>> table[dim+1]; std::size_t tableSize[dim+1]={};
  std::size_t countFixed(GeometryType gt, u64 e, int i) const {
    std::size_t n=0; int cd=dim-gt.dim();
    for (u64 k=0;k<elementTypes.size() && k<=e;++k) { auto re=Dune::referenceElement<double,dim>(elementTypes[k]); for (int j=0;j<(k==e ? i : re.size(cd));++j) if (re.type(j,cd)==gt) ++n; }
    return n;
  }
  static u64 code(GeometryType gt) { return gt.dim()*16+(gt.id()>>1); }
  std::size_t size(GeometryType gt) const {
    if ((int)gt.dim()<=dim && !table[dim-gt.dim()].empty()) { for (const auto& t : types_[dim-gt.dim()]) if (t==gt) return tableSize[dim-gt.dim()]; return 0; }
    if ((int)gt.dim()<=dim && fixed[dim-gt.dim()]) return countFixed(gt,elementTypes.size(),0);
    if ((int)gt.dim()<=dim) for (const auto& t : types_[dim-gt.dim()]) if (t==gt) return vp_uf("size",0,maxIndex,gv,code(gt),0,0);
    return 0;
  }
  std::size_t size(int cd) const { std::size_t s=0; for (const auto& t : types_[cd]) s+=size(t); return s; }
  std::size_t raw(const E& e, int i, unsigned cd) const { if (!table[cd].empty()) return table[cd][e.id][i]; if (fixed[cd]) return countFixed(Dune::referenceElement<double,dim>(e.gt).type(i,cd),e.id,i); if (glue.on && e.id==1 && (int)cd==glue.c && i==glue.s1) return vp_uf("subIndex",0,maxIndex,gv,0,glue.s0,cd); return vp_uf("subIndex",0,maxIndex,gv,e.id,i,cd); }
  // contract of the index set: below the size of the geometry type, injective on the element
  std::size_t subIndex(const E& e, int i, unsigned cd) const {
    auto re = Dune::referenceElement<double,dim>(e.gt);
    vp_assert((int)cd<=dim && i>=0 && i<re.size(cd),"sub-entities are asked for with valid numbers");
    if (fixed[cd] | !table[cd].empty()) vp_assert(e.id<elementTypes.size(),"index sets are asked for entities of their grid view");
    std::size_t r = raw(e,i,cd); auto t=re.type(i,cd);
    vp_assume(r<size(t));
    for (int j=0;j<re.size(cd);++j) if (j!=i && re.type(j,cd)==t) vp_assume(raw(e,j,cd)!=r);
    return r;
  }
  template<int cd> std::size_t subIndex(const E& e, int i, unsigned c) const { return subIndex(e,i,c); }
  std::size_t index(const E& e) const { return subIndex(e,0,0); }
  template<class En> bool contains(const En&) const { return true; }
};

template<int dim, int dow=dim> struct GridData;
template<int dim, int dow> struct Intersection {
  using E = Entity<0,dim,dow>; using Element = E;
  using Geometry = vg::Geometry<dim-1,dow,2>;
  using Entity = E;
  E e; int face=0; u64 n=0; const GridData<dim,dow>* data=nullptr;
  bool fixedGrid() const { return data && data->is.fixed[0]; }
  E inside() const { return e; }
  E outside() const { if (fixedGrid()) return data->elements[1-e.id]; return { vp_uf("neighbour",0,maxIndex,e.id,n,0,0), e.gt, e.lvl }; }
  int indexInInside() const { return face; }
  int indexInOutside() const { return (int)vp_uf("faceInOutside",0,11,e.id,n,0,0); }
  bool boundary() const { return vp_uf("boundary",0,1,e.id,n,0,0); }
  bool neighbor() const { if (fixedGrid()) { const auto& g=data->is.glue; return g.on && g.c==1 && e.id<2 && face==(e.id==0 ? g.s0 : g.s1); } return vp_uf("hasNeighbour",0,1,e.id,n,0,0); }
};
template<int dim, int dow> struct IntersectionIterator {
  using I = Intersection<dim,dow>; using Intersection = I;
  I is;
  const I& operator*() const { return is; }
  const I* operator->() const { return &is; }
  IntersectionIterator& operator++() { ++is.n; is.face=(int)is.n; return *this; }
  bool operator==(const IntersectionIterator& o) const { return is.n==o.is.n; }
  bool operator!=(const IntersectionIterator& o) const { return is.n!=o.is.n; }
};

// everything a grid view refers to
template<int dim, int dow> struct GridData {
  Grid<dim,dow> grid; IndexSet<dim,dow> is; std::vector<Entity<0,dim,dow>> elements;
  // elements of the given types with arbitrary distinct ids (or the ids 0,1,...: all other data
  // are arbitrary functions of the id, so this fixes the names of the elements only)
  GridData(std::vector<GeometryType> elementTypes, u64 gv=0, std::vector<GeometryType> extraTypes={}, bool concreteIds=false) {
    is.gv=gv; std::vector<GeometryType> all=elementTypes; for (auto t : extraTypes) all.push_back(t); is.elementTypes=elementTypes;
    for (auto gt : all) {
      auto re=Dune::referenceElement<double,dim>(gt);
      for (int cd=0;cd<=dim;++cd) for (int i=0;i<re.size(cd);++i) {
        auto t=re.type(i,cd); bool have=false; for (const auto& s : is.types_[cd]) if (s==t) have=true;
        if (!have) is.types_[cd].push_back(t);
      }
    }
    if (concreteIds) for (auto gt : elementTypes) elements.push_back(Entity<0,dim,dow>{ elements.size(), gt, 0 });
    else for (auto gt : elementTypes) { Entity<0,dim,dow> e{ vp_u64("elementId",0,maxIndex), gt, 0 }; for (const auto& o : elements) vp_assume(o.id!=e.id); elements.push_back(e); }
  }
};
template<int dim, int dow> struct GridView {
  static constexpr int dimension = dim, dimensionworld = dow;
  using ctype = double; using Grid = vg::Grid<dim,dow>; using IndexSet = vg::IndexSet<dim,dow>;
  using Intersection = vg::Intersection<dim,dow>; using IntersectionIterator = vg::IntersectionIterator<dim,dow>;
  template<int cd> struct Codim {
    using Entity = vg::Entity<cd,dim,dow>; using Geometry = vg::Geometry<dim-cd,dow>; using Iterator = const Entity*;
    template<Dune::PartitionIteratorType> struct Partition { using Iterator = const Entity*; };
  };
  const GridData<dim,dow>* data=nullptr;
  GridView() = default;
  GridView(const GridData<dim,dow>& d) : data(&d) {}
  const Grid& grid() const { return data->grid; }
  const IndexSet& indexSet() const { return data->is; }
  std::size_t size(int cd) const { return data->is.size(cd); }
  std::size_t size(GeometryType gt) const { return data->is.size(gt); }
  // the grid view contains its elements, other entities perhaps
  template<class En> bool contains(const En& e) const { if (data->is.fixed[0] && En::codimension==0 && e.id<data->elements.size()) return true; return vp_uf("contains",0,1,data->is.gv,e.id,0,0); }
  template<int cd> const Entity<cd,dim,dow>* begin() const { static_assert(cd==0); return data->elements.data(); }
  template<int cd> const Entity<cd,dim,dow>* end() const { static_assert(cd==0); return data->elements.data()+data->elements.size(); }
  template<int cd, Dune::PartitionIteratorType> const Entity<cd,dim,dow>* begin() const { return begin<cd>(); }
  template<int cd, Dune::PartitionIteratorType> const Entity<cd,dim,dow>* end() const { return end<cd>(); }
  IntersectionIterator ibegin(const Entity<0,dim,dow>& e) const { return {{e,0,0,data}}; }
  IntersectionIterator iend(const Entity<0,dim,dow>& e) const { u64 n=Dune::referenceElement<double,dim>(e.gt).size(1); return {{e,(int)n,n,data}}; }
};
}
namespace Dune { using vg::referenceElement; }
