// a small grid view: affine elements given by type and vertex numbers; sub-entities are identified by their vertex sets
#pragma once
#include <map>
#include <set>
#include <vector>
#include <memory>
#include <algorithm>
#include <dune/geometry/type.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/grid/common/gridenums.hh>
#include <dune/grid/common/partitionset.hh>
#include <dune/grid/common/capabilities.hh>
namespace mock {
using Dune::GeometryType;
template<int dim> struct Data;
template<int m,int dim> struct Geo : Dune::MultiLinearGeometry<double,m,dim> { using Dune::MultiLinearGeometry<double,m,dim>::MultiLinearGeometry; };
template<int cd,int dim> struct Entity { static constexpr int codimension=cd, dimension=dim, mydimension=dim-cd; using Geometry=Dune::MultiLinearGeometry<double,dim-cd,dim>;
  const Data<dim>* d=nullptr; int e=0,s=0; GeometryType type() const { return Dune::referenceElement<double,dim>(d->types[e]).type(s,cd); } bool operator==(const Entity&) const = default; };
template<int dim> struct Entity<0,dim> { static constexpr int codimension=0, dimension=dim, mydimension=dim; using Geometry=Dune::MultiLinearGeometry<double,dim,dim>;
  template<int cd> struct Codim { using Entity=mock::Entity<cd,dim>; };
  const Data<dim>* d=nullptr; int e=0;
  GeometryType type() const { return d->types[e]; }
  Geometry geometry() const { std::vector<Dune::FieldVector<double,dim>> c; for (int v : d->verts[e]) c.push_back(d->pos.at(v)); return Geometry(type(),c); }
  unsigned subEntities(unsigned cd) const { return Dune::referenceElement<double,dim>(type()).size(cd); }
  template<int cd> mock::Entity<cd,dim> subEntity(int i) const { return {d,e,i}; }
  bool operator==(const Entity&) const = default; };
template<int dim> auto referenceElement(const Entity<0,dim>& e) { return Dune::referenceElement<double,dim>(e.type()); }
template<int dim> struct IndexSet { static constexpr int dimension=dim; using IndexType=std::size_t; using Types=std::vector<GeometryType>;
  const Data<dim>* d; Types t[dim+1]; std::map<std::vector<int>,std::size_t> num[dim+1]; std::map<GeometryType,std::size_t> cnt;
  static std::vector<int> key(const Data<dim>& d,int e,int i,int cd) { auto re=Dune::referenceElement<double,dim>(d.types[e]); std::vector<int> k; for (int j=0;j<re.size(i,cd,dim);++j) k.push_back(d.verts[e][re.subEntity(i,cd,j,dim)]); std::sort(k.begin(),k.end()); return k; }
  const Types& types(int cd) const { return t[cd]; }
  std::size_t size(GeometryType g) const { auto it=cnt.find(g); return it==cnt.end()?0:it->second; }
  std::size_t size(int cd) const { std::size_t s=0; for (auto g : t[cd]) s+=size(g); return s; }
  std::size_t subIndex(const Entity<0,dim>& e,int i,unsigned cd) const { auto it=num[cd].find(key(*e.d,e.e,i,cd)); if (it==num[cd].end()) std::abort(); return it->second; }
  template<int cd> std::size_t subIndex(const Entity<0,dim>& e,int i,unsigned c) const { return subIndex(e,i,c); }
  std::size_t index(const Entity<0,dim>& e) const { return subIndex(e,0,0); }
  template<int cd> std::size_t index(const Entity<cd,dim>& e) const { return subIndex(Entity<0,dim>{e.d,e.e},e.s,cd); }
  template<class E> bool contains(const E& e) const { return e.d==d; }
  void init(const Data<dim>& dd) { d=&dd; for (int e=0;e<(int)dd.types.size();++e) { auto re=Dune::referenceElement<double,dim>(dd.types[e]); for (int cd=0;cd<=dim;++cd) for (int i=0;i<re.size(cd);++i) { auto g=re.type(i,cd); if (std::find(t[cd].begin(),t[cd].end(),g)==t[cd].end()) t[cd].push_back(g); auto k=key(dd,e,i,cd); if (!num[cd].count(k)) { std::size_t n=cnt[g]++; num[cd][k]=n; } } } } };
template<int dim> struct IdSet { static constexpr int dimension=dim; using IdType=std::size_t; std::size_t subId(const Entity<0,dim>& e,int i,unsigned cd) const { if ((int)cd!=dim) std::abort(); return e.d->verts[e.e][i]; } template<class E> std::size_t id(const E& e) const { return e.e; } };
template<int dim> struct Grid { static constexpr int dimension=dim, dimensionworld=dim; using ctype=double; using GlobalIdSet=IdSet<dim>; using LocalIdSet=IdSet<dim>; struct Traits { using GlobalIdSet=IdSet<dim>; template<int cd> struct Codim { using Entity=mock::Entity<cd,dim>; }; }; template<int cd> struct Codim { using Entity=mock::Entity<cd,dim>; }; IdSet<dim> ids; const IdSet<dim>& globalIdSet() const { return ids; } const IdSet<dim>& localIdSet() const { return ids; } };
template<int dim> struct Data { std::vector<GeometryType> types; std::vector<std::vector<int>> verts; std::map<int,Dune::FieldVector<double,dim>> pos; std::vector<Entity<0,dim>> els; IndexSet<dim> is; Grid<dim> grid;
  Data(std::vector<GeometryType> t, std::vector<std::vector<int>> v, std::map<int,Dune::FieldVector<double,dim>> p={}) : types(t), verts(v), pos(p) { for (int e=0;e<(int)t.size();++e) els.push_back({this,e}); is.init(*this); } Data(const Data&)=delete; };
template<int dim> struct Intersection { using E=mock::Entity<0,dim>; using Entity=E; E e; int f=0; int nb=-1;
  E inside() const { return e; } E outside() const { return e.d->els[nb]; } int indexInInside() const { return f; } bool boundary() const { return nb<0; } bool neighbor() const { return nb>=0; }
  int indexInOutside() const { auto k=IndexSet<dim>::key(*e.d,e.e,f,1); auto re=Dune::referenceElement<double,dim>(e.d->types[nb]); for (int i=0;i<re.size(1);++i) if (IndexSet<dim>::key(*e.d,nb,i,1)==k) return i; return -1; } };
template<int dim> struct GridView { static constexpr int dimension=dim, dimensionworld=dim; using ctype=double; using Grid=mock::Grid<dim>; using IndexSet=mock::IndexSet<dim>; using Intersection=mock::Intersection<dim>; using IntersectionIterator=const Intersection*;
  template<int cd> struct Codim { using Entity=mock::Entity<cd,dim>; using Geometry=typename Entity::Geometry; using Iterator=const Entity*; template<Dune::PartitionIteratorType> struct Partition { using Iterator=const Entity*; }; };
  const Data<dim>* d; GridView(const Data<dim>& x):d(&x){}
  const Grid& grid() const { return d->grid; } const IndexSet& indexSet() const { return d->is; } auto size(int cd) const { return d->is.size(cd); } auto size(GeometryType g) const { return d->is.size(g); }
  template<int cd> const Entity<0,dim>* begin() const { return d->els.data(); } template<int cd> const Entity<0,dim>* end() const { return d->els.data()+d->els.size(); }
  template<class E> bool contains(const E& e) const { return e.d==d; } };
template<int dim> struct ElRange { const Data<dim>* d; auto begin() const { return d->els.begin(); } auto end() const { return d->els.end(); } };
template<int dim> ElRange<dim> elements(const GridView<dim>& g) { return {g.d}; }
template<int dim> std::vector<Intersection<dim>> intersections(const GridView<dim>& g,const Entity<0,dim>& e) { std::vector<Intersection<dim>> r; auto re=Dune::referenceElement<double,dim>(e.type()); for (int f=0;f<re.size(1);++f) { Intersection<dim> i{e,f,-1}; auto k=IndexSet<dim>::key(*e.d,e.e,f,1); for (int o=0;o<(int)e.d->types.size();++o) if (o!=e.e) { auto ro=Dune::referenceElement<double,dim>(e.d->types[o]); for (int j=0;j<ro.size(1);++j) if (IndexSet<dim>::key(*e.d,o,j,1)==k) i.nb=o; } r.push_back(i); } return r; }
}
