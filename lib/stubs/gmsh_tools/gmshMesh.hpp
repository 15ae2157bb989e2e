// Stand-in for the (absent) gmsh_tools submodule: records what is added to it.
#pragma once
#include <array>
#include <cassert>
#include <vector>
namespace gmsh {
class Node { std::array<double,3> c{}; size_t i = 0, r = 0;
public: Node() {} Node(const std::array<double,3>& coor, size_t index, size_t ref) : c(coor), i(index), r(ref) {}
    std::array<double,3> getCoordinate() const { return c; } size_t getIndex() const { return i; } size_t getRef() const { return r; } };
template<int K, size_t N> class Elem { std::vector<size_t> n; size_t i = 0, p = 0, e = 0;
public: Elem() {} Elem(const std::vector<size_t>& nodes, size_t index, size_t phys, size_t elem) : n(nodes), i(index), p(phys), e(elem) { if (N) assert(n.size() == N); }
    Elem(size_t node, size_t index, size_t phys, size_t elem) : n{node}, i(index), p(phys), e(elem) {}
    std::vector<size_t> getNodes() const { return n; } size_t getIndex() const { return i; } };
using Vertice = Elem<0,1>; using Edge = Elem<1,2>; using Triangle = Elem<2,3>; using Quadrangle = Elem<3,4>; using Tetrahedron = Elem<4,4>; using Hexahedron = Elem<5,8>;
class Gmesh { size_t d = 3;
    std::vector<Node> n; std::vector<Vertice> v; std::vector<Edge> e; std::vector<Triangle> t; std::vector<Quadrangle> q; std::vector<Tetrahedron> T; std::vector<Hexahedron> H;
public: Gmesh() {} explicit Gmesh(size_t dim) : d(dim) {}
    size_t getDim() const { return d; } size_t getNumberofNodes() const { return n.size(); }
    size_t getNumberofElements() const { return v.size()+e.size()+t.size()+q.size()+T.size()+H.size(); }
    Node getNode(size_t i) const { return n.at(i); } const std::vector<Node>& getNodes() const { return n; }
    const std::vector<Vertice>& getVertices() const { return v; } const std::vector<Edge>& getEdges() const { return e; } const std::vector<Triangle>& getTriangles() const { return t; }
    const std::vector<Quadrangle>& getQuadrangles() const { return q; } const std::vector<Tetrahedron>& getTetrahedra() const { return T; } const std::vector<Hexahedron>& getHexahedra() const { return H; }
    void addNode(const Node& x) { n.push_back(x); } void addVertice(const Vertice& x) { v.push_back(x); } void addEdge(const Edge& x) { e.push_back(x); } void addTriangle(const Triangle& x) { t.push_back(x); }
    void addQuadrangle(const Quadrangle& x) { q.push_back(x); } void addTetrahedron(const Tetrahedron& x) { T.push_back(x); } void addHexahedron(const Hexahedron& x) { H.push_back(x); } };
}
