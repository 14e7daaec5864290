#pragma once
// Stands for the writer built on libIGES, which is not available here: accepts everything, writes nothing.
#include <string>
#include <gbs/curves>
#include <gbs/surfaces>
namespace gbs
{
    template <typename T> class IgesWriter
    {
    public:
        void add_geometry(const BSCurve<T, 2> &, const std::string & = "") {}
        void add_geometry(const BSCurve<T, 3> &, const std::string & = "") {}
        void add_geometry(const BSCurveRational<T, 2> &, const std::string & = "") {}
        void add_geometry(const BSCurveRational<T, 3> &, const std::string & = "") {}
        void add_geometry(const BSSurface<T, 2> &, const std::string & = "") {}
        void add_geometry(const BSSurface<T, 3> &, const std::string & = "") {}
        void add_geometry(const BSSurfaceRational<T, 2> &, const std::string & = "") {}
        void add_geometry(const BSSurfaceRational<T, 3> &, const std::string & = "") {}
        void add_geometry(const SurfaceOfRevolution<T> &, const std::string & = "") {}
        void write(const std::string &, bool = true) {}
    };
}
