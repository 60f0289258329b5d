// Map kinds behind one handle, and a cell that remembers its observations.
#ifndef MAPS_H
#define MAPS_H
#include "vh.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/m3rsm_engine.h"

// The content of a cell is the list of observation ids merged into it.
class LogCell : public GridCell {
public:
  LogCell(int tag = 0) : GridCell{Occupancy{0.25, 1}}, tag{tag} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<LogCell>(*this); }
  void operator+=(const AreaOccupancyObservation &aoo) override {
    log.push_back(int(std::lround(aoo.quality)));
    _occupancy = aoo.occupancy;
    on_update();
  }
  std::vector<char> serialize() const override {
    Serializer s(GridCell::serialize());
    s << tag << int(log.size());
    for (int i = 0; i < 8; ++i) s << int(i < int(log.size()) ? log[i] : 0);
    return s.result();
  }
  size_t deserialize(const std::vector<char> &data, size_t pos = 0) override {
    Deserializer d(data, GridCell::deserialize(data, pos));
    int n, v;
    d >> tag >> n;
    log.clear();
    for (int i = 0; i < 8; ++i) { d >> v; if (i < n) log.push_back(v); }
    return d.pos();
  }
  int tag;
  std::vector<int> log;
};

inline AreaOccupancyObservation log_obs(int id, double occ = 0.5) {
  return AreaOccupancyObservation{true, Occupancy{occ, 1.0}, Point2D{0, 0}, double(id)};
}

enum MapKind { PLAIN, UPLAIN, LAZY, ULAZY, R_UPLAIN, R_ULAZY, M3_UPLAIN, M3_ULAZY, KINDS };
inline bool unbounded(int k) { return k != PLAIN && k != LAZY; }
inline bool copyable(int k) { return k == LAZY || k == ULAZY; }
inline bool savable(int k) { return k == UPLAIN || k == R_UPLAIN || k == M3_UPLAIN; }

inline std::shared_ptr<GridMap> make_map(int kind, std::shared_ptr<GridCell> proto, int w, int h, double s) {
  GridMapParams p{w, h, s};
  auto oie = std::make_shared<OccupancyOIE>();
  switch (kind) {
    case PLAIN: return std::make_shared<PlainGridMap>(proto, p);
    case UPLAIN: return std::make_shared<UnboundedPlainGridMap>(proto, p);
    case LAZY: return std::make_shared<LazyTiledGridMap>(proto, p);
    case ULAZY: return std::make_shared<UnboundedLazyTiledGridMap>(proto, p);
    case R_UPLAIN: return std::make_shared<RescalableCachingGridMap<UnboundedPlainGridMap>>(proto, p);
    case R_ULAZY: return std::make_shared<RescalableCachingGridMap<UnboundedLazyTiledGridMap>>(proto, p);
    case M3_UPLAIN: return std::make_shared<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(oie, proto, p);
    case M3_ULAZY: return std::make_shared<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(oie, proto, p);
  }
  exit(77);
}
inline std::shared_ptr<GridMap> copy_map(int kind, const GridMap &m) {
  if (kind == LAZY) return std::make_shared<LazyTiledGridMap>(static_cast<const LazyTiledGridMap &>(m));
  return std::make_shared<UnboundedLazyTiledGridMap>(static_cast<const UnboundedLazyTiledGridMap &>(m));
}
inline void assign_map(int kind, GridMap &to, const GridMap &from) {
  if (kind == LAZY) static_cast<LazyTiledGridMap &>(to) = static_cast<const LazyTiledGridMap &>(from);
  else static_cast<UnboundedLazyTiledGridMap &>(to) = static_cast<const UnboundedLazyTiledGridMap &>(from);
}
inline std::vector<long> map_ext(const GridMap &m) { // x0, y0, w, h in external coordinates
  return {-m.origin().x, -m.origin().y, m.width(), m.height()};
}
#endif
