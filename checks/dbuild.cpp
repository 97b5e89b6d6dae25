// Random documents, built through the API; everything that was put in is recorded in a map that a dump of the document must contain.
#include "dlib.h"
#include <string.h>
namespace dl {
namespace {
std::string F(double v) { char b[400]; snprintf(b, sizeof b, "%.6f", v); std::string s = b; for (char& x : s) if (x == ',') x = '.'; while (s.size() > 1 && s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); return s == "-0" ? "0" : s; }
std::string F(size_t v) { return std::to_string(v); } std::string F(Sint32 v) { return std::to_string(v); } std::string F(Uint32 v) { return std::to_string(v); } std::string F(Sint8 v) { return std::to_string((int)v); } std::string F(Uint8 v) { return std::to_string((int)v); } std::string F(Uint16 v) { return std::to_string(v); }
std::string F(unsigned long long v) { return std::to_string(v); } std::string F(bool v) { return v ? "yes" : "no"; } std::string F(const char* v) { return v; } std::string F(const std::string& v) { return v; }
std::string F(const CieColor& c) { return F(c.fx) + "," + F(c.fy) + "," + F(c.f_Y); }
std::string F(const STransformMatrix& m) { const double* d = &m.ux; std::string s; for (int i = 0; i < 12; i++) s += (i ? "," : "") + F(d[i]); return s; }
std::string F(const MvrUUID& u) { char b[60]; snprintf(b, sizeof b, "%08x-%08x-%08x-%08x", u.a, u.b, u.c, u.d); return b; }
std::string F(const STime& t) { char b[60]; snprintf(b, sizeof b, "%d-%d-%d %d:%d:%d", t.fYear, t.fMonth, t.fDay, t.fHour, t.fMinute, t.fSecond); return b; }
template <class T> typename std::enable_if<std::is_enum<T>::value, std::string>::type F(T v) { return std::to_string((long)v); }
std::string fileText(const std::string& s) { u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (u8)c) * 1099511628211ull; char b[60]; snprintf(b, sizeof b, "%zu bytes %016llx", s.size(), (unsigned long long)h); return b; }
bool yes() { return chance(C_DATA, D); }
u32 ch(u32 n) { return choose(C_DATA, n); }

u32 many(u32 n) { return choose(C_OP, n + 1); }
double num() { switch (ch(10)) { default: return (int)ch(2001) - 1000 + (int)ch(1000) / 1000.0; case 0: return 0; case 1: return 1; case 2: return -(double)ch(1000) / 1000; case 3: return ch(1000000) / 1000000.0; case 4: return 1000000.0 + ch(100000) / 8.0; case 5: return (int)ch(9) - 4; case 6: return -0.000001; } }
double pos() { double v = num(); return v < 0 ? -v : v; }
std::string word() { static const char* w[] = { "Dimmer", "Pan", "a", "Head", "x1", "Lamp Base", "Zoom_2", "Gobo (Rot)", "\xc3\xa4\xc3\xb6\xc3\xbc", "\xe5\x8f\x8c", "Tilt-Fine", "R&B", "<tag>", "\"quoted\"", "it's", "a;b", "100%", "#1", "C+Y+M", "5m/s", "=1+1", "0815", "none", "null", "true" }; return w[ch(gNames ? 25 : 12)]; }
}
namespace {
// what a file's name may look like
std::string variant() { static const char* w[] = { "", "", "", "-\xc3\xa4\xc3\xb6", "_\xe5\x8f\x8c", " (1)", ".v2", " copy", "-\xf0\x9f\x8e\xad" }; return w[ch(gNames ? 9 : 1)]; }
thread_local bool gLimited = false;   // GDTF names have a restricted alphabet
std::string uniq(int& n) { std::string s = gNames ? word() : "N"; if (gLimited) for (char ch : s) if (ch & 0x80) { s = "Ae"; break; } return s + " " + std::to_string(++n); }
std::string txt() { switch (ch(8)) { default: return word() + " " + word(); case 0: return ""; case 1: return word(); case 2: return "A much longer description with, commas; and: colons (and brackets) {curly} [square] " + word() + std::string(ch(600), 'x'); case 3: return gNames ? "tab\there & <there>" : "x"; } }
CieColor color() { CieColor c{}; c.fx = ch(1001) / 1000.0; c.fy = ch(1001) / 1000.0; c.f_Y = ch(100001) / 1000.0; return c; }
MvrUUID uuid() { static const u32 edge[] = { 0xffffffffu, 1, 0x80000000u, 0x7fffffffu, 0x01000000u }; MvrUUID u(0, 0, 0, 0); Uint32* w[] = { &u.a, &u.b, &u.c, &u.d }; for (auto* x : w) *x = ch(6) == 1 ? edge[ch(5)] : (ch(65536) << 16 | ch(65536)); u.d ^= 0; if (u.isEmpty()) u.a = 1; return u; }
STransformMatrix matrix() { STransformMatrix m{ 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0 }; switch (ch(5)) { case 0: break; case 1: m.ox = num(); m.oy = num(); m.oz = num(); break; case 2: m.ux = 0; m.uy = 1; m.vx = -1; m.vy = 0; m.oz = num(); break; case 3: { double* d = &m.ux; for (int i = 0; i < 12; i++) d[i] = num(); break; } case 4: m.wz = -1; m.ux = 0.866025; m.uy = 0.5; break; } return m; }
struct Build { Map& m;
  template <class P, class I, class T, class V> bool set(const std::string& k, P* p, VCOMError (I::*fn)(T), V v) { if (!yes()) return false; return must(k, p, fn, v); }
  template <class P, class I, class T, class V> bool must(const std::string& k, P* p, VCOMError (I::*fn)(T), V v) { typename std::decay<T>::type x = (typename std::decay<T>::type)v; VCOMError e = (p->*fn)(x); if (!e) m[k] = F(x); return !e; }
  template <class P, class I> bool str(const std::string& k, P* p, VCOMError (I::*fn)(MvrString), const std::string& v) { if (!yes()) return false; VCOMError e = (p->*fn)(v.c_str()); if (!e) m[k] = v; return !e; }
  template <class P, class I, class T> bool ref(const std::string& k, P* p, VCOMError (I::*fn)(T*), T* v, const std::string& nm) { if (!yes()) return false; VCOMError e = (p->*fn)(v); if (!e) m[k] = nm; return !e; } };
#define I_(p) std::remove_reference<decltype(*p)>::type
#define SET(k, fn, v) b.set(pre + k, p, &I_(p)::fn, v)
#define STR(k, fn, v) b.str(pre + k, p, &I_(p)::fn, v)
template <class T> struct Named { VCOMPtr<T> p; std::string name; };
template <class T> const Named<T>* pick1(const std::vector<Named<T>>& v) { return v.empty() ? nullptr : &v[ch((u32)v.size())]; }
#define REF(k, fn, vec) do { if (auto* q_ = pick1(vec)) b.ref(pre + k, p, &I_(p)::fn, (typename std::remove_const<decltype(vec)>::type::value_type*)nullptr ? q_->p.operator->() : q_->p.operator->(), q_->name); } while (0)
std::string idx(const char* k, size_t i) { return std::string(k) + "[" + std::to_string(i) + "]."; }
template <class P> void buildMeasurements(Build& b, P* owner, const std::string& opre, bool filter) {   // the format keeps the transmission of a filter, the intensity of an emitter
  u32 n = many(2); for (u32 i = 0; i < n; i++) { VCOMPtr<IGdtfMeasurement> mp; if (owner->CreateMeasurement(&mp)) continue; IGdtfMeasurement* p = mp; std::string pre = opre + idx("measurement", i); SET("physical", SetPhysical, num()); if (filter) SET("transmission", SetTransmission, num()); else SET("intensity", SetLuminousIntensity, num()); SET("interpolation", SetInterpolationTo, ch(3));
    u32 k = many(3); for (u32 j = 0; j < k; j++) { VCOMPtr<IGdtfMeasurementPoint> q; if (p->CreateMeasurementPoint(&q)) continue; IGdtfMeasurementPoint* p = q; std::string pre2 = pre + idx("point", j); { std::string pre = pre2; SET("wave", SetWaveLength, pos()); SET("energy", SetEnergy, num()); } } b.m[pre + "point.count"] = F(k); } b.m[opre + "measurement.count"] = F(n); }
template <class P> void buildColorSpaceValues(Build& b, P* p, const std::string& pre) { if (!p->SetColorSpace(GD::EGdtfColorSpace::Custom)) { b.m[pre + "mode"] = F(GD::EGdtfColorSpace::Custom); SET("red", SetRed, color()); SET("green", SetGreen, color()); SET("blue", SetBlue, color()); SET("white", SetWhite, color()); } }
const GD::EGdtfObjectType geoTypes[] = { GD::eGdtfGeometry, GD::eGdtfGeometryAxis, GD::eGdtfGeometryBeamFilter, GD::eGdtfGeometryColorFilter, GD::eGdtfGeometryGoboFilter, GD::eGdtfGeometryShaperFilter, GD::eGdtfGeometryLamp, GD::eGdtfGeometryReference, GD::eGdtfGeometryMediaServerCamera, GD::eGdtfGeometryMediaServerLayer, GD::eGdtfGeometryMediaServerMaster, GD::eGdtfGeometryDisplay, GD::eGdtfGeometryLaser, GD::eGdtfGeometryWiringObject, GD::eGdtfGeometryInventory, GD::eGdtfGeometryStructure, GD::eGdtfGeometrySupport, GD::eGdtfGeometryMagnet };
const GD::EGdtfPhysicalUnit kUnits[] = { GD::EGdtfPhysicalUnit::None, GD::EGdtfPhysicalUnit::Percent, GD::EGdtfPhysicalUnit::Length, GD::EGdtfPhysicalUnit::Mass, GD::EGdtfPhysicalUnit::Time, GD::EGdtfPhysicalUnit::Temperatur, GD::EGdtfPhysicalUnit::LuminousItensity, GD::EGdtfPhysicalUnit::Angle, GD::EGdtfPhysicalUnit::Force, GD::EGdtfPhysicalUnit::Frequeny, GD::EGdtfPhysicalUnit::Current, GD::EGdtfPhysicalUnit::Voltage, GD::EGdtfPhysicalUnit::Power, GD::EGdtfPhysicalUnit::Energy, GD::EGdtfPhysicalUnit::Area, GD::EGdtfPhysicalUnit::Volume, GD::EGdtfPhysicalUnit::Speed, GD::EGdtfPhysicalUnit::Acceleration, GD::EGdtfPhysicalUnit::AngularSpeed, GD::EGdtfPhysicalUnit::AngularAccc, GD::EGdtfPhysicalUnit::WaveLength, GD::EGdtfPhysicalUnit::ColorComponent };
struct Ctx { std::vector<Named<IGdtfModel>> models; std::vector<Named<IGdtfPhysicalEmitter>> emitters; std::vector<Named<IGdtfFilter>> filters; std::vector<Named<IGdtfDMXProfile>> profiles; std::vector<Named<IGdtfColorSpace>> spaces; std::vector<Named<IGdtfGamut>> gamuts; std::vector<Named<IGdtfWheel>> wheels; std::vector<Named<IGdtfAttribute>> attributes; std::vector<std::vector<Named<IGdtfSubPhysicalUnit>>> units; int names = 0; };
struct Geo { VCOMPtr<IGdtfGeometry> p; std::string name, top, pre; GD::EGdtfObjectType type; };
struct GeoTree { std::vector<Geo> all; };
template <class P> void buildGeometries(Build& b, P* owner, const std::string& opre, const char* k, Ctx& c, GeoTree& t, int depth, u32 n, const std::string& top) {
  for (u32 i = 0; i < n; i++) {
    GD::EGdtfObjectType ty = depth == 0 && i == 0 ? GD::eGdtfGeometry : geoTypes[ch(18)]; std::string name = uniq(c.names); VCOMPtr<IGdtfGeometry> gp; STransformMatrix mat = matrix(); auto* model = yes() ? pick1(c.models) : nullptr; IGdtfModel* mo = model ? model->p.operator->() : nullptr;
    VCOMError e = owner->CreateGeometry(ty, name.c_str(), mo, mat, &gp); if (e || !gp) { violation("builder", "CreateGeometry of type %d failed with %d", (int)ty, (int)e); return; }
    IGdtfGeometry* p = gp; std::string pre = opre + idx(k, i); std::string tp = depth ? top : name; t.all.push_back({ gp, name, tp, pre, ty }); b.m[pre + "type"] = F(ty); b.m[pre + "name"] = name; b.m[pre + "matrix"] = F(mat); if (model) b.m[pre + "model"] = model->name;
    SET("lamp", SetLampType, ch(4)); SET("power", SetPowerConsumption, num()); SET("intensity", SetLuminousIntensity, num()); SET("temperature", SetColorTemperature, num()); SET("beamAngle", SetBeamAngle, num()); SET("fieldAngle", SetFieldAngle, num()); SET("beamRadius", SetBeamRadius, num()); SET("throwRatio", SetThrowRatio, num()); SET("rectangleRatio", SetRectangleRatio, num()); SET("beamType", SetBeamType, ch(7));
    STR("texture", SetTexture, txt()); if (ty == GD::eGdtfGeometryLamp) REF("spectrum", SetEmitterSpectrum, c.emitters);
    SET("colorType", SetColorType, ch(2)); SET("laserColor", SetLaserColor, num()); SET("output", SetOutputStrength, num()); if (ty == GD::eGdtfGeometryLaser) REF("emitter", SetEmitter, c.emitters); SET("diameter", SetBeamDiameter, num()); SET("divMin", SetBeamDivergenceMin, num()); SET("divMax", SetBeamDivergenceMax, num()); SET("scanPan", SetScanAnglePan, num()); SET("scanTilt", SetScanAngleTilt, num()); SET("scanSpeed", SetScanSpeed, num());
    if (ty == GD::eGdtfGeometryLaser) { u32 k2 = many(2); for (u32 j = 0; j < k2; j++) { VCOMPtr<IGdtfLaserProtocol> q; std::string nm = uniq(c.names); if (!p->CreateLaserProtocol(nm.c_str(), &q)) b.m[pre + idx("protocol", j) + "name"] = nm; } b.m[pre + "protocol.count"] = F(k2); }
    STR("connectorType", SetConnectorType, txt()); SET("component", SetComponentType, ch(9)); STR("signal", SetSignalType, txt()); SET("pins", SetPinCount, ch(100)); SET("layer", SetSignalLayer, ch(5)); SET("orientation", SetOrientation, ch(4)); STR("wireGroup", SetWireGroup, txt()); SET("payload", SetElectricalPayLoad, num()); SET("voltMin", SetVoltageRangeMin, num()); SET("voltMax", SetVoltageRangeMax, num()); SET("freqMin", SetFrequencyRangeMin, num()); SET("freqMax", SetFrequencyRangeMax, num()); SET("cosPhi", SetCosPhi, num()); SET("maxPayload", SetMaxPayLoad, num()); SET("voltage", SetVoltage, num()); SET("fuseCurrent", SetFuseCurrent, num()); SET("fuseRating", SetFuseRating, ch(5));
    SET("inventory", SetInventoryCount, ch(1000)); SET("structure", SetStructureType, ch(2)); SET("crossSection", SetCrossSectionType, ch(2)); SET("crossHeight", SetCrossSectionHeight, num()); SET("crossWall", SetCrossSectionWallThickness, num()); STR("trussCross", SetTrussCrossSection, txt());
    SET("supportType", SetSupportType, ch(2)); SET("capX", SetCapacityX, num()); SET("capY", SetCapacityY, num()); SET("capZ", SetCapacityZ, num()); SET("capXX", SetCapacityXX, num()); SET("capYY", SetCapacityYY, num()); SET("capZZ", SetCapacityZZ, num()); STR("rope", SetRopeCrossSection, txt()); SET("resX", SetResistanceX, num()); SET("resY", SetResistanceY, num()); SET("resZ", SetResistanceZ, num()); SET("resXX", SetResistanceXX, num()); SET("resYY", SetResistanceYY, num()); SET("resZZ", SetResistanceZZ, num());
    if (yes()) { double x = num(), y = num(), z = num(); if (!p->SetRopeOffset(x, y, z)) b.m[pre + "ropeOffset"] = F(x) + "," + F(y) + "," + F(z); }
    if (ty == GD::eGdtfGeometryReference) { u32 k2 = many(3); for (u32 j = 0; j < k2; j++) { VCOMPtr<IGdtfBreak> q; Sint32 br = 1 + j; GD::DMXAddress ad = 1 + ch(512); if (!p->CreateBreak(br, ad, &q)) { b.m[pre + idx("break", j) + "break"] = F(br); b.m[pre + idx("break", j) + "address"] = F(ad); } } b.m[pre + "break.count"] = F(k2); }
    u32 kids = depth < 3 && ty != GD::eGdtfGeometryReference ? many(depth == 0 ? 3 : 2) : 0; if (ty != GD::eGdtfGeometryReference) { buildGeometries(b, p, pre, "child", c, t, depth + 1, kids, tp); b.m[pre + "child.count"] = F(kids); } } }
}
GdtfDoc planGdtf(const Opt& o) {
  GdtfDoc d; d.uuid = uuid(); int n = 0; D = choose(C_CFG, 4) == 1 ? 1.0 : 0.2 + choose(C_CFG, 6) / 10.0; gNames = o.names; d.name = o.names ? word() + " Fixture" : "Fixture"; for (char x : d.name) if ((x & 0x80) || x == '/') { d.name = "Other Fixture"; break; } return d; (void)n; }
bool buildGdtf(IGdtfFixture* p, GdtfDoc& doc, const Opt& o) {
  struct Lim { bool was = gLimited; Lim() { gLimited = true; } ~Lim() { gLimited = was; } } lim;
  gNames = o.names; Map& m = doc.model; Build b{ m }; std::string pre; Ctx c; GeoTree tree; int rn = o.salt * 1000;
  STR("description", SetFixtureTypeDescription, txt()); STR("shortName", SetShortName, txt()); STR("longName", SetLongName, txt()); SET("children", SetCanHaveChildren, (bool)ch(2)); SET("tempLow", SetOperatingTemperatureLow, num()); SET("tempHigh", SetOperatingTemperatureHigh, num()); SET("weight", SetWeight, pos()); SET("leg", SetLegHeight, pos()); SET("thumbX", SetThumbnailOffsetX, (Sint32)ch(2000) - 1000); SET("thumbY", SetThumbnailOffsetY, (Sint32)ch(2000) - 1000);
  if (yes()) { MvrUUID u = uuid(); if (!p->SetLinkedFixtureGUID(u)) { m["hasLinked"] = "yes"; m["linked"] = F(u); } }
  auto attach = [&](const std::string& name, GD::ERessourceType t, const std::string& data) -> bool { Attached a; a.name = name; a.data = data; a.viaFile = choose(C_OP, 3) == 1 && !data.empty(); VCOMError e;
    if (a.viaFile) { fsPut(0, o.src + "/" + name, data); bool rename = choose(C_OP, 3) == 1; if (rename) { fsPut(0, o.src + "/other-" + name, data); e = p->AddFileToGdtfFile((o.src + "/other-" + name).c_str(), t, name.c_str()); } else e = p->AddFileToGdtfFile((o.src + "/" + name).c_str(), t); }
    else { std::vector<char> tmp(data.begin(), data.end()); e = p->AddBufferToGdtfFile(name.c_str(), tmp.data(), tmp.size(), t); if (!tmp.empty()) memset(tmp.data(), 0x5a, tmp.size()); }
    if (e) return false; doc.files.push_back(a); return true; };
  auto data = [&] { return blob(++rn, o.big ? blobSize() : 1 + ch(300), ch(6)); };
  if (o.files && yes()) { std::string t = "thumb"; p->SetFixtureThumbnail(t.c_str()); m["thumbnail"] = t; u32 k = ch(3); if (k != 1) { std::string x = data(); if (attach("thumb.png", GD::ERessourceType::RessoureFixture, x)) m["thumbnail.png"] = fileText(x); } if (k != 0) { std::string x = data(); if (attach("thumb.svg", GD::ERessourceType::RessoureFixture, x)) m["thumbnail.svg"] = fileText(x); } }
  // attributes
  std::vector<Named<IGdtfActivationGroup>> acts; std::vector<Named<IGdtfFeature>> feats; u32 n = many(3); for (u32 i = 0; i < n; i++) { Named<IGdtfActivationGroup> a; a.name = uniq(c.names); if (p->CreateActivationGroup(a.name.c_str(), &a.p)) continue; m[idx("activation", i) + "name"] = a.name; acts.push_back(a); } m["activation.count"] = F(n);
  n = 1 + many(2); for (u32 i = 0; i < n; i++) { VCOMPtr<IGdtfFeatureGroup> g; std::string nm = uniq(c.names), pr = txt(); if (p->CreateFeatureGroup(nm.c_str(), pr.c_str(), &g)) continue; m[idx("featureGroup", i) + "name"] = nm; m[idx("featureGroup", i) + "pretty"] = pr; u32 k = many(3); for (u32 j = 0; j < k; j++) { Named<IGdtfFeature> q; q.name = uniq(c.names); if (g->CreateFeature(q.name.c_str(), &q.p)) continue; m[idx("featureGroup", i) + idx("feature", j) + "name"] = q.name; feats.push_back(q); } m[idx("featureGroup", i) + "feature.count"] = F(k); } m["featureGroup.count"] = F(n);
  n = 1 + many(5); c.units.resize(n); for (u32 i = 0; i < n; i++) { Named<IGdtfAttribute> a; a.name = uniq(c.names); std::string pr = txt(); if (p->CreateAttribute(a.name.c_str(), pr.c_str(), &a.p)) continue; { IGdtfAttribute* p = a.p; std::string pre = idx("attribute", i); m[pre + "name"] = a.name; m[pre + "pretty"] = pr; REF("activation", SetActivationGroup, acts); REF("feature", SetFeature, feats); REF("main", SetMainAttribute, c.attributes); SET("unit", SetPhysicalUnit, kUnits[ch(22)]); SET("color", SetColor, color());
      u32 k = many(2); for (u32 j = 0; j < k; j++) { Named<IGdtfSubPhysicalUnit> u; auto ty = (GD::EGdtfSubPhysicalUnitType)ch(11); if (p->CreateSubPhysicalUnit(ty, &u.p)) continue; std::string pre2 = pre + idx("sub", j); m[pre2 + "type"] = F(ty); u.name = F(ty); { IGdtfSubPhysicalUnit* p = u.p; std::string pre = pre2; SET("from", SetPhysicalFrom, num()); SET("to", SetPhysicalTo, num()); } c.units[i].push_back(u); } m[pre + "sub.count"] = F(k); } c.attributes.push_back(a); } m["attribute.count"] = F(n);
  // physical descriptions
  n = many(2); for (u32 i = 0; i < n; i++) { Named<IGdtfFilter> a; a.name = uniq(c.names); CieColor col = color(); if (p->CreateFilter(a.name.c_str(), col, &a.p)) continue; m[idx("filter", i) + "name"] = a.name; m[idx("filter", i) + "color"] = F(col); buildMeasurements(b, a.p.operator->(), idx("filter", i), true); c.filters.push_back(a); } m["filter.count"] = F(n);
  n = many(2); for (u32 i = 0; i < n; i++) { Named<IGdtfPhysicalEmitter> a; a.name = uniq(c.names); CieColor col = color(); if (p->CreateEmitter(a.name.c_str(), col, &a.p)) continue; { IGdtfPhysicalEmitter* p = a.p; std::string pre = idx("emitter", i); m[pre + "name"] = a.name; m[pre + "color"] = F(col); STR("diode", SetDiodePart, txt()); SET("wave", SetDominantWaveLength, num()); buildMeasurements(b, p, pre, false); } c.emitters.push_back(a); } m["emitter.count"] = F(n);
  n = many(2); for (u32 i = 0; i < n; i++) { Named<IGdtfDMXProfile> a; a.name = uniq(c.names); if (p->CreateDMXProfile(&a.p)) continue; a.p->SetName(a.name.c_str()); std::string pre = idx("profile", i); m[pre + "name"] = a.name; u32 k = many(3); for (u32 j = 0; j < k; j++) { VCOMPtr<IGdtfPoint> q; double v[5]; for (double& x : v) x = num(); if (a.p->CreatePoint(v[0], v[1], v[2], v[3], v[4], &q)) continue; const char* nm[] = { "percent", "c3", "c2", "c1", "c0" }; for (int x = 0; x < 5; x++) m[pre + idx("point", j) + nm[x]] = F(v[x]); } m[pre + "point.count"] = F(k); c.profiles.push_back(a); } m["profile.count"] = F(n);
  n = many(2); for (u32 i = 0; i < n; i++) { VCOMPtr<IGdtfCRIGroup> g; double t = 1000 + (int)ch(9000); if (p->CreateCRIGroup(t, &g)) continue; m[idx("cri", i) + "temperature"] = F(t); u32 k = many(3); for (u32 j = 0; j < k; j++) { VCOMPtr<IGdtfCRI> q; Sint32 v = ch(101); if (g->CreateCRI((GD::EGdtfColorSample)(ch(99)), v, &q)) continue; m[idx("cri", i) + idx("sample", j) + "index"] = F(v); } m[idx("cri", i) + "sample.count"] = F(k); } m["cri.count"] = F(n);
  n = many(2); for (u32 i = 0; i < n; i++) { VCOMPtr<IGdtfConnector> q; std::string nm = uniq(c.names), ty = txt(); if (p->CreateConnector(nm.c_str(), ty.c_str(), &q)) continue; { IGdtfConnector* p = q; std::string pre = idx("connector", i); m[pre + "name"] = nm; m[pre + "type"] = ty; SET("break", SetDmxBreak, ch(20)); SET("gender", SetGender, (Sint32)ch(3) - 1); SET("length", SetLength, num()); } } m["connector.count"] = F(n);
  n = many(2); for (u32 i = 0; i < n; i++) { Named<IGdtfColorSpace> a; a.name = uniq(c.names); auto ty = (const GD::EGdtfColorSpace[]){ GD::EGdtfColorSpace::sRGB, GD::EGdtfColorSpace::ProPhoto, GD::EGdtfColorSpace::ANSI, GD::EGdtfColorSpace::Custom }[ch(4)]; if (p->CreateAdditionalColorSpace(a.name.c_str(), ty, &a.p)) continue; std::string pre = idx("colorSpaces", i); m[pre + "name"] = a.name; m[pre + "mode"] = F(ty); if (ty == GD::EGdtfColorSpace::Custom) buildColorSpaceValues(b, a.p.operator->(), pre); c.spaces.push_back(a); } m["colorSpaces.count"] = F(n);
  n = many(2); for (u32 i = 0; i < n; i++) { Named<IGdtfGamut> a; a.name = uniq(c.names); CieColor col = color(); if (p->CreateGamut(a.name.c_str(), col, &a.p)) continue; std::string pre = idx("gamut", i); m[pre + "name"] = a.name; u32 k = many(3); size_t had = 0; a.p->GetPointCount(had); for (u32 j = 0; j < k; j++) { CieColor q = color(); if (!a.p->CreatePoint(q)) m[pre + "point[" + std::to_string(had + j) + "]"] = F(q); } c.gamuts.push_back(a); } m["gamut.count"] = F(n);
  // wheels
  n = many(2); for (u32 i = 0; i < n; i++) { Named<IGdtfWheel> w; w.name = uniq(c.names); if (p->CreateWheel(w.name.c_str(), &w.p)) continue; std::string pre = idx("wheel", i); m[pre + "name"] = w.name; u32 k = 1 + many(3); for (u32 j = 0; j < k; j++) { VCOMPtr<IGdtfWheelSlot> s; std::string nm = uniq(c.names); if (w.p->CreateWheelSlot(nm.c_str(), &s)) continue; { IGdtfWheelSlot* p = s; std::string pre2 = pre + idx("slot", j); std::string pre = pre2; m[pre + "name"] = nm; SET("color", SetColor, color()); REF("filter", SetFilter, c.filters); SET("duration", SetDuration, pos()); SET("width", SetWidth, ch(5000)); SET("height", SetHeight, ch(5000)); SET("fps", SetFPS, ch(120));
        if (o.files && yes()) { std::string g = "gobo" + std::to_string(++c.names) + variant(), x = data(); if (attach(g + ".png", GD::ERessourceType::ImageWheel, x)) { p->SetGobo(g.c_str()); m[pre + "gobo"] = g; m[pre + "gobo.file"] = fileText(x); } }
        u32 q = many(2); for (u32 x = 0; x < q; x++) { VCOMPtr<IGdtfWheelSlotPrismFacet> fc; STransformMatrix mt = matrix(); mt.ox = mt.oy = mt.oz = 0; if (p->CreatePrismFacet(mt, &fc)) continue; m[pre + "facet[" + std::to_string(x) + "].matrix"] = F(mt); CieColor cc = color(); if (!fc->SetColor(cc)) m[pre + "facet[" + std::to_string(x) + "].color"] = F(cc); } m[pre + "facet.count"] = F(q);
        if (ch(4) == 1) { double v[7]; for (double& x : v) x = num(); VCOMPtr<IGdtfWheelSlotAnimationSystem> an; if (!p->CreateAnimationSystem(v[0], v[1], v[2], v[3], v[4], v[5], v[6], &an)) { const char* nm[] = { "x1", "y1", "x2", "y2", "x3", "y3", "radius" }; for (int x = 0; x < 7; x++) m[pre + "animation." + nm[x]] = F(v[x]); } } } } m[pre + "slot.count"] = F(k); c.wheels.push_back(w); } m["wheel.count"] = F(n);
  // models
  n = many(3); for (u32 i = 0; i < n; i++) { Named<IGdtfModel> a; a.name = uniq(c.names); if (p->CreateModel(a.name.c_str(), &a.p)) continue; { IGdtfModel* p = a.p; std::string pre = idx("model", i); m[pre + "name"] = a.name; SET("length", SetLength, num()); SET("width", SetWidth, num()); SET("height", SetHeight, num()); SET("primitive", SetPrimitiveType, ch(13)); SET("svgX", SetSVGOffsetX, num()); SET("svgY", SetSVGOffsetY, num()); SET("sideX", SetSVGSideOffsetX, num()); SET("sideY", SetSVGSideOffsetY, num()); SET("frontX", SetSVGFrontOffsetX, num()); SET("frontY", SetSVGFrontOffsetY, num());
      if (o.files && yes()) { std::string g = "model" + std::to_string(++c.names) + variant(); p->SetGeometryFile(g.c_str()); m[pre + "file"] = g; struct { const char* key; const char* ext; GD::ERessourceType t; } k[] = { { "3ds", ".3ds", GD::ERessourceType::Model3DS }, { "svg", ".svg", GD::ERessourceType::ModelSVG }, { "gltf", ".glb", GD::ERessourceType::ModelGLTF }, { "3dsLow", ".3ds", GD::ERessourceType::Model3DSLow }, { "3dsHigh", ".3ds", GD::ERessourceType::Model3DSHigh }, { "gltfLow", ".glb", GD::ERessourceType::ModelGLTFLow }, { "gltfHigh", ".glb", GD::ERessourceType::ModelGLTFHigh }, { "svgSide", ".svg", GD::ERessourceType::ModelSVGSide }, { "svgFront", ".svg", GD::ERessourceType::ModelSVGFront } };
        for (auto& q : k) if (yes()) { std::string x = data(); if (attach(g + q.ext, q.t, x)) m[pre + q.key] = fileText(x); } } } c.models.push_back(a); } m["model.count"] = F(n);
  // geometries
  n = 1 + many(2); buildGeometries(b, p, "", "geometry", c, tree, 0, n, ""); m["geometry.count"] = F(n);
  for (auto& g : tree.all) { if (g.type == GD::eGdtfGeometryReference) { std::vector<Geo*> tops; for (auto& q : tree.all) if (q.top == q.name && q.name != g.top && q.type != GD::eGdtfGeometryReference) tops.push_back(&q); if (!tops.empty() && yes()) { Geo* q = tops[ch((u32)tops.size())]; if (!g.p->SetGeometryReference(q->p)) m[g.pre + "reference"] = q->name; } }
    if (g.type == GD::eGdtfGeometryWiringObject) { std::vector<Geo*> w; for (auto& q : tree.all) if (q.type == GD::eGdtfGeometryWiringObject && q.top == g.top) w.push_back(&q); u32 k = many(2); for (u32 j = 0; j < k; j++) { Geo* q = w[ch((u32)w.size())]; VCOMPtr<IGdtfPinPatch> pp; size_t a = ch(20), e = ch(20); if (!g.p->CreatePinPatch(q->p, a, e, &pp)) { std::string pre = g.pre + idx("pinPatch", j); m[pre + "to"] = q->name; m[pre + "fromPin"] = F(a); m[pre + "toPin"] = F(e); } } m[g.pre + "pinPatch.count"] = F(k); }
    if (g.type == GD::eGdtfGeometryStructure && yes()) { std::vector<Geo*> w; for (auto& q : tree.all) if (q.top == g.top) w.push_back(&q); Geo* q = w[ch((u32)w.size())]; if (!g.p->SetStructureLinkedGeometry(q->p)) m[g.pre + "structLink"] = q->name; } }
  // revisions
  n = many(2); for (u32 i = 0; i < n; i++) { STime t; t.fYear = 1990 + ch(60); t.fMonth = 1 + ch(12); t.fDay = 1 + ch(28); t.fHour = ch(24); t.fMinute = ch(60); t.fSecond = ch(60); std::string x = txt(); VCOMPtr<IGdtfRevision> r; if (p->CreateRevision(x.c_str(), t, &r)) continue; { IGdtfRevision* p = r; std::string pre = idx("revision", i); m[pre + "text"] = x; m[pre + "date"] = F(t); SET("user", SetUserId, ch(100000)); STR("by", SetModifiedBy, txt()); } } m["revision.count"] = F(n);
  // modes
  std::vector<Named<IGdtfDmxMode>> modes; n = many(2); for (u32 i = 0; i < n; i++) { Named<IGdtfDmxMode> md; md.name = uniq(c.names); if (p->CreateDmxMode(md.name.c_str(), &md.p)) continue; std::string mp = idx("mode", i); m[mp + "name"] = md.name; if (yes()) { std::string x = txt(); if (!md.p->SetDescription(x.c_str())) m[mp + "description"] = x; }
    std::vector<Geo*> tops; for (auto& q : tree.all) if (q.top == q.name && q.type != GD::eGdtfGeometryReference) tops.push_back(&q); Geo* top = tops[ch((u32)tops.size())]; md.p->SetGeometry(top->p); m[mp + "geometry"] = top->name; std::vector<Geo*> in; for (auto& q : tree.all) if (q.top == top->name && q.type != GD::eGdtfGeometryReference) in.push_back(&q);
    struct Fn { VCOMPtr<IGdtfDmxChannelFunction> p; u32 chan; u64 max; std::string pre; }; std::vector<Fn> fns; std::vector<VCOMPtr<IGdtfDmxChannel>> chans; std::vector<u64> maxes; std::map<std::string, int> used; Sint32 addr = 1; u32 nc = many(4), made = 0;
    for (u32 j = 0; j < nc; j++) { Geo* g = in[ch((u32)in.size())]; auto* at = pick1(c.attributes); size_t ai = at - &c.attributes[0]; if (used[g->name + "\n" + at->name]++) continue; VCOMPtr<IGdtfDmxChannel> chp; if (md.p->CreateDmxChannel(g->p, &chp)) continue; std::string pre = mp + idx("channel", made); u32 res = 1 + ch(4); u64 max = res == 4 ? 0xffffffffull : (1ull << (8 * res)) - 1;
      { IGdtfDmxChannel* p = chp; m[pre + "geometry"] = g->name; Sint32 br = 1 + ch(3); if (!p->SetDmxBreak(br)) m[pre + "break"] = F(br); Sint32 a[4] = { 0, 0, 0, 0 }; for (u32 x = 0; x < res; x++) a[x] = addr++; p->SetCoarse(a[0]); m[pre + "coarse"] = F(a[0]); if (res > 1) { p->SetFine(a[1]); m[pre + "fine"] = F(a[1]); } if (res > 2) { p->SetUltra(a[2]); m[pre + "ultra"] = F(a[2]); } if (res > 3) { p->SetUber(a[3]); m[pre + "uber"] = F(a[3]); } if (yes()) { GD::DmxValue h = range(C_DATA, 0, max); if (!p->SetHighlight(h)) { m[pre + "highlight"] = F((unsigned long long)h); m[pre + "hasHighlight"] = "yes"; } } }
      VCOMPtr<IGdtfDmxLogicalChannel> lc; if (chp->CreateLogicalChannel(at->p, &lc)) continue; std::string lp = pre + "logical[0]."; m[pre + "logical.count"] = "1"; m[lp + "attribute"] = at->name; { IGdtfDmxLogicalChannel* p = lc; std::string pre = lp; SET("snap", SetDmxSnap, ch(4)); SET("master", SetDmxMaster, ch(3)); SET("mib", SetMoveInBlackFrames, pos()); SET("limit", SetDmxChangeTimeLimit, pos()); }
      u32 nf = 1 + many(3); u64 step = (max + 1) / nf; for (u32 x = 0; x < nf; x++) { VCOMPtr<IGdtfDmxChannelFunction> fp; std::string nm = uniq(c.names); if (lc->CreateDmxFunction(nm.c_str(), &fp)) continue; IGdtfDmxChannelFunction* p = fp; std::string pre = lp + idx("function", x); u64 start = x * step, end = x + 1 == nf ? max : (x + 1) * step - 1; m[pre + "name"] = nm; if (!p->SetAttribute(at->p)) m[pre + "attribute"] = at->name; if (!p->SetStartAddress(start)) m[pre + "start"] = F((unsigned long long)start);
        STR("originalAttribute", SetOriginalAttribute, txt()); SET("physFrom", SetPhysicalStart, num()); SET("physTo", SetPhysicalEnd, num()); SET("fade", SetRealFade, num()); SET("acceleration", SetRealAcceleration, num()); REF("wheel", SetOnWheel, c.wheels); REF("emitter", SetEmitter, c.emitters); REF("filter", SetFilter, c.filters); SET("default", SetDefaultValue, range(C_DATA, 0, max)); REF("colorSpace", SetColorSpace, c.spaces); REF("gamut", SetGamut, c.gamuts); REF("profile", SetDMXProfile, c.profiles); SET("min", SetMin, num()); SET("max", SetMax, num()); STR("customName", SetCustomName, gNames ? word() : "cn");
        u32 ns = many(3); u64 sst = (end - start + 1) / (ns ? ns : 1); for (u32 y = 0; y < ns; y++) { VCOMPtr<IGdtfDmxChannelSet> sp; std::string sn = uniq(c.names); u64 s0 = start + y * sst, s1 = y + 1 == ns ? end : s0 + sst - 1; if (p->CreateDmxChannelSet(sn.c_str(), s0, s1, &sp)) continue; std::string q = pre + idx("set", y); m[q + "name"] = sn; m[q + "start"] = F((unsigned long long)s0); { IGdtfDmxChannelSet* p = sp; std::string pre = q; if (ch(2)) { double a = num(), e = num(); p->SetPhysicalStart(a); p->SetPhysicalEnd(e); m[pre + "physFrom"] = F(a); m[pre + "physTo"] = F(e); } SET("slot", SetWheelSlot, ch(4)); } } m[pre + "set.count"] = F(ns);
        u32 nu = c.units[ai].empty() ? 0 : many(2); for (u32 y = 0; y < nu; y++) { VCOMPtr<IGdtfDmxSubChannelSet> sp; auto& u = c.units[ai][ch((u32)c.units[ai].size())]; std::string sn = uniq(c.names); if (p->CreateDmxSubChannelSet(sn.c_str(), u.p, &sp)) continue; std::string q = pre + idx("subset", y); m[q + "name"] = sn; m[q + "unit"] = u.name; { IGdtfDmxSubChannelSet* p = sp; std::string pre = q; SET("physFrom", SetPhysicalFrom, num()); SET("physTo", SetPhysicalTo, num()); REF("profile", SetDMXProfile, c.profiles); } } m[pre + "subset.count"] = F(nu);
        fns.push_back({ fp, made, max, pre }); } m[lp + "function.count"] = F(nf); chans.push_back(chp); maxes.push_back(max); made++; }
    m[mp + "channel.count"] = F(made);
    // references between channels
    for (auto& q : fns) if (chans.size() > 1 && ch(4) == 1) { u32 o2 = ch((u32)chans.size()); if (o2 == q.chan) continue; u64 a = range(C_DATA, 0, maxes[o2] / 2), e = range(C_DATA, a, maxes[o2]); if (ch(2)) { if (!q.p->SetModeMasterChannel(chans[o2], a, e)) m[q.pre + "masterChannel"] = F(chans[o2]->GetName()) + " " + F((size_t)a) + "-" + F((size_t)e); } else { std::vector<Fn*> t; for (auto& z : fns) if (z.chan == o2) t.push_back(&z); if (!t.empty()) { Fn* z = t[ch((u32)t.size())]; if (!q.p->SetModeMasterFunction(z->p, a, e)) m[q.pre + "masterFunction"] = F(z->p->GetName()) + " " + F((size_t)a) + "-" + F((size_t)e); } } }
    for (u32 j = 0; j < chans.size(); j++) if (yes()) { std::vector<Fn*> t; for (auto& z : fns) if (z.chan == j) t.push_back(&z); if (!t.empty()) { Fn* z = t[ch((u32)t.size())]; if (!chans[j]->SetInitialFunction(z->p)) m[mp + idx("channel", j) + "initial"] = F(z->p->GetName()); } }
    u32 nr = fns.empty() ? 0 : many(2), mr = 0; for (u32 j = 0; j < nr; j++) { u32 cm = ch((u32)chans.size()); Fn* z = &fns[ch((u32)fns.size())]; VCOMPtr<IGdtfDmxRelation> r; std::string nm = uniq(c.names); auto ty = ch(2) ? GD::eGdtfDmxRelationType_Multiply : GD::eGdtfDmxRelationType_Override; if (md.p->CreateDmxRelation(nm.c_str(), ty, chans[cm], z->p, &r)) continue; std::string pre = mp + idx("relation", mr++); m[pre + "name"] = nm; m[pre + "type"] = F(ty); m[pre + "master"] = chans[cm]->GetName(); m[pre + "slave"] = z->p->GetName(); } m[mp + "relation.count"] = F(mr);
    u32 nm = fns.empty() ? 0 : many(2); for (u32 j = 0; j < nm; j++) { VCOMPtr<IGdtfMacro> mc; std::string name = uniq(c.names); if (md.p->CreateDmxMacro(name.c_str(), &mc)) continue; std::string pre = mp + idx("macro", j); m[pre + "name"] = name; if (ch(3) == 1) { Fn* z = &fns[ch((u32)fns.size())]; if (!mc->SetChannelFunction(z->p)) m[pre + "function"] = F(z->p->GetName()); }
      VCOMPtr<IGdtfMacroDMX> dx; if (ch(2) && !mc->CreateMacroDMX(&dx)) { u32 k = many(2); for (u32 x = 0; x < k; x++) { VCOMPtr<IGdtfMacroDMXStep> st; double du = pos(); if (dx->CreateStep(du, &st)) continue; std::string sp = pre + "dmx." + idx("step", x); m[sp + "duration"] = F(du); u32 kv = many(2); for (u32 y = 0; y < kv; y++) { u32 cc = ch((u32)chans.size()); GD::DmxValue v = range(C_DATA, 0, maxes[cc]); VCOMPtr<IGdtfMacroDMXValue> vp; if (st->CreateDMXValue(v, chans[cc], &vp)) continue; m[sp + idx("value", y) + "value"] = F((unsigned long long)v); m[sp + idx("value", y) + "channel"] = chans[cc]->GetName(); } m[sp + "value.count"] = F(kv); } m[pre + "dmx.step.count"] = F(k); }
      VCOMPtr<IGdtfMacroVisual> vx; if (ch(2) && !mc->CreateMacroVisual(&vx)) { u32 k = many(2); for (u32 x = 0; x < k; x++) { VCOMPtr<IGdtfMacroVisualStep> st; if (vx->CreateVisualStep(&st)) continue; std::string sp = pre + "visual." + idx("step", x); { IGdtfMacroVisualStep* p = st; std::string pre = sp; SET("duration", SetDuration, pos()); SET("fade", SetFade, pos()); SET("delay", SetDelay, pos()); } u32 kv = many(2); for (u32 y = 0; y < kv; y++) { Fn* z = &fns[ch((u32)fns.size())]; GD::DmxValue v = range(C_DATA, 0, z->max); VCOMPtr<IGdtfMacroVisualValue> vp; if (st->CreateVisualValue(v, z->p, &vp)) continue; m[sp + idx("value", y) + "value"] = F((unsigned long long)v); m[sp + idx("value", y) + "function"] = z->p->GetName(); } m[sp + "value.count"] = F(kv); } m[pre + "visual.step.count"] = F(k); } } m[mp + "macro.count"] = F(nm);
    modes.push_back(md); } m["mode.count"] = F(n);
  // protocols
  if (yes()) { VCOMPtr<IGdtf_FTRDM> r; if (!p->CreateRDM(&r)) { { IGdtf_FTRDM* p = r; std::string pre = "rdm."; SET("manufacturer", SetManufacturerID, ch(65536)); SET("device", SetDeviceModelID, ch(65536)); } u32 k = many(2); for (u32 j = 0; j < k; j++) { VCOMPtr<IGdtfSoftwareVersionID> s; size_t v = ch(65536); if (r->CreateSoftwareVersionID(v, &s)) continue; std::string sp = "rdm." + idx("software", j); m[sp + "value"] = F(v); u32 q = modes.empty() ? 0 : many(2); for (u32 x = 0; x < q; x++) { VCOMPtr<IGdtfDMXPersonality> dp; auto* md = pick1(modes); size_t v2 = ch(256); if (s->CreateDMXPersonality(v2, md->p, &dp)) continue; m[sp + idx("personality", x) + "value"] = F(v2); m[sp + idx("personality", x) + "mode"] = md->name; } m[sp + "personality.count"] = F(q); } m["rdm.software.count"] = F(k); } }
  if (yes()) { VCOMPtr<IGdtfArtNet> a; if (!p->CreateArtNet(&a)) { u32 k = many(3); for (u32 j = 0; j < k; j++) { VCOMPtr<IGdtfMap> q; Uint32 x = ch(512), y = ch(65536); if (a->CreateMap(x, y, &q)) continue; m["artnet." + idx("map", j) + "key"] = F(x); m["artnet." + idx("map", j) + "value"] = F(y); } m["artnet.map.count"] = F(k); } }
  if (yes()) { VCOMPtr<IGdtfSACN> a; if (!p->CreateSACN(&a)) { u32 k = many(3); for (u32 j = 0; j < k; j++) { VCOMPtr<IGdtfMap> q; Uint32 x = ch(512), y = ch(65536); if (a->CreateMap(x, y, &q)) continue; m["sacn." + idx("map", j) + "key"] = F(x); m["sacn." + idx("map", j) + "value"] = F(y); } m["sacn.map.count"] = F(k); } }
  if (yes()) { VCOMPtr<IGdtfColorSpace> cs; if (!p->GetColorSpace(&cs) && cs) { auto ty = (const GD::EGdtfColorSpace[]){ GD::EGdtfColorSpace::sRGB, GD::EGdtfColorSpace::ProPhoto, GD::EGdtfColorSpace::ANSI, GD::EGdtfColorSpace::Custom }[ch(4)]; if (ty == GD::EGdtfColorSpace::Custom) buildColorSpaceValues(b, cs.operator->(), "colorSpace."); else if (!cs->SetColorSpace(ty)) m["colorSpace.mode"] = F(ty); } }
  return true;
}

// ------------------------------------------------------------------ MVR
namespace {
struct MCtx { std::vector<Named<IPosition>> positions; std::vector<Named<IClass>> classes; std::vector<Named<ISymDef>> symdefs; std::vector<std::pair<VCOMPtr<IMappingDefinition>, MvrUUID>> mapdefs; std::vector<std::string> models, gobos, gdtfs; std::map<std::string, std::string> content; int names = 0; };
struct Obj { VCOMPtr<ISceneObj> p; ESceneObjType type; MvrUUID id; std::string pre; int at; };
std::string keep(std::vector<std::string>& store, const std::string& s) { store.push_back(s); return s; }
std::string geoFile(MCtx& c) { return !c.models.empty() && ch(4) ? c.models[ch((u32)c.models.size())] : "external" + std::to_string(ch(100)) + ".3ds"; }
template <class P> void geometries(Build& b, MCtx& c, P* p, const std::string& pre, u32 n, size_t symLimit) {
  u32 k = 0; for (u32 i = 0; i < n; i++) { STransformMatrix m = matrix(); std::string q = pre + idx("geometry", k);
    if (symLimit && ch(2)) { auto& s = c.symdefs[ch((u32)symLimit)]; if (p->AddSymbol(uuid(), m, s.p)) continue; b.m[q + "symbol"] = "yes"; b.m[q + "def"] = s.name; } else { std::string f = geoFile(c); if (p->AddGeometry(m, f.c_str())) continue; b.m[q + "symbol"] = "no"; b.m[q + "file"] = f; if (c.content.count(f)) b.m[q + "file.content"] = c.content[f]; }
    b.m[q + "matrix"] = F(m); k++; }
  b.m[pre + "geometry.count"] = F(k); }
GD::ESourceType sourceType() { return (const GD::ESourceType[]){ GD::ESourceType::NDI, GD::ESourceType::File, GD::ESourceType::CITP, GD::ESourceType::CaptureDevice }[ch(4)]; }
template <class P> void source(Build& b, P* p, VCOMError (P::*fn)(MvrString, MvrString, GD::ESourceType), const std::string& pre, const std::string& flag) { std::string v = word(), g = word(); auto t = sourceType(); if ((p->*fn)(v.c_str(), g.c_str(), t)) return; b.m[flag] = "yes"; b.m[pre + "value"] = v; b.m[pre + "geometry"] = g; b.m[pre + "type"] = F(t); }
void fillObject(Build& b, MCtx& c, Obj& o) {
  ISceneObj* p = o.p; const std::string& pre = o.pre; bool fx = o.type == ESceneObjType::Fixture, spec = o.type != ESceneObjType::Layer && o.type != ESceneObjType::Group && o.type != ESceneObjType::FocusPoint;
  geometries(b, c, p, pre, many(2), c.symdefs.size());
  if (auto* q = pick1(c.classes)) b.ref(pre + "class", p, &ISceneObj::SetClass, q->p.operator->(), q->name);
  if (spec) { if (yes()) { std::string g = !c.gdtfs.empty() && ch(4) ? c.gdtfs[ch((u32)c.gdtfs.size())] : "unknown.gdtf"; if (!p->SetGdtfName(g.c_str())) b.m[pre + "gdtf"] = g; } STR("gdtfMode", SetGdtfMode, word()); }
  if (fx) {
    STR("function", SetFunction, word()); STR("id", SetFixtureId, word()); SET("idNumeric", SetFixtureIdNumeric, (size_t)ch(100000)); SET("unit", SetUnitNumber, (Sint32)ch(20000) - 10000); SET("color", SetColor, color()); SET("typeId", SetFixtureTypeId, (Sint8)((int)ch(256) - 128)); SET("customId", SetCustomId, (size_t)ch(100000)); SET("shadow", SetCastShadow, (bool)ch(2)); SET("invertPan", SetDMXInvertPan, (bool)ch(2)); SET("invertTilt", SetDMXInvertTilt, (bool)ch(2)); REF("position", SetPosition, c.positions);
    if (yes()) { std::string g = !c.gobos.empty() && ch(3) ? c.gobos[ch((u32)c.gobos.size())] : "image"; double r = num(); if (!p->SetGobo(g.c_str())) { b.m[pre + "gobo"] = g; if (c.content.count(g + ".png")) b.m[pre + "gobo.file"] = c.content[g + ".png"]; } if (!p->SetGoboRotation(r)) b.m[pre + "goboRotation"] = F(r); }
    u32 n = many(3); for (u32 i = 0; i < n; i++) { size_t a = 1 + ch(512 * 512), br = i * 3 + ch(3); if (!p->AddAdress(a, br)) b.m[pre + "address[" + std::to_string(i) + "]"] = F(br) + "." + F(a); } b.m[pre + "address.count"] = F((size_t)n);
    n = c.mapdefs.empty() ? 0 : many(2); u32 mk = 0; for (u32 i0 = 0; i0 < n; i0++) { auto& md = c.mapdefs[ch((u32)c.mapdefs.size())]; if (p->AddMapping(md.second)) continue; u32 i = mk++; VCOMPtr<IMapping> mp; std::string q = pre + idx("mapping", i); b.m[q + "def"] = F(md.second); if (!p->GetMappingAt(i, &mp) && mp) { IMapping* p = mp; std::string pre = q; SET("ux", SetUx, (Uint32)ch(4000)); SET("uy", SetUy, (Uint32)ch(4000)); SET("ox", SetOx, (Uint32)ch(4000)); SET("oy", SetOy, (Uint32)ch(4000)); SET("rz", SetRz, num()); } } b.m[pre + "mapping.count"] = F((size_t)mk);
    n = many(2); for (u32 i = 0; i < n; i++) { std::string v[4] = { word(), word(), word(), word() }; SProtocol s{}; s.fGeometry = v[0].c_str(); s.fName = v[1].c_str(); s.fType = v[2].c_str(); s.fVersion = v[3].c_str(); s.fTransmision = (GD::ETransmissionType)ch(4); if (!p->AddProtocol(s)) b.m[pre + "protocol[" + std::to_string(i) + "]"] = v[0] + "|" + v[1] + "|" + v[2] + "|" + v[3] + "|" + F(s.fTransmision); } b.m[pre + "protocol.count"] = F((size_t)n);
  }
  if (spec) {
    u32 n = many(2); for (u32 i = 0; i < n; i++) { VCOMPtr<ICustomCommand> q; std::string f = word(); bool pc = ch(2); double v = num(); if (p->CreateCustomCommand(f.c_str(), pc, v, &q)) break; std::string k = pre + idx("command", i); b.m[k + "function"] = f; b.m[k + "percentage"] = F(pc); b.m[k + "value"] = F(v); b.m[pre + "command.count"] = F((size_t)i + 1); }
    n = many(2); for (u32 i = 0; i < n; i++) { VCOMPtr<IAlignment> q; std::string f = word(); SVector3 u{ num(), num(), num() }, d{ num(), num(), num() }; if (p->CreateAlignment(f.c_str(), u, d, &q)) break; std::string k = pre + idx("alignment", i); b.m[k + "beam"] = f; b.m[k + "up"] = F(u.x) + "," + F(u.y) + "," + F(u.z); b.m[k + "direction"] = F(d.x) + "," + F(d.y) + "," + F(d.z); b.m[pre + "alignment.count"] = F((size_t)i + 1); }
    n = many(2); for (u32 i = 0; i < n; i++) { VCOMPtr<IOverwrite> q; std::string f = word(), t = word(); if (p->CreateOverwrite(f.c_str(), t.c_str(), &q)) break; std::string k = pre + idx("overwrite", i); b.m[k + "universal"] = f; b.m[k + "target"] = t; b.m[pre + "overwrite.count"] = F((size_t)i + 1); }
  }
  if (o.type == ESceneObjType::VideoScreen && yes()) source(b, p, &ISceneObj::SetVideoScreenSource, pre + "screenSource.", pre + "screenSource.");
  if (o.type == ESceneObjType::Projector) { if (yes()) source(b, p, &ISceneObj::SetProjectorSource, pre + "projectorSource.", pre + "projectorSource."); SET("scale", SetScaleHandling, (GD::EScaleHandlingType)ch(3)); }
}
void buildChildren(Build& b, MCtx& c, IMediaRessourceVectorInterface* m, std::vector<Obj>& all, int self, ISceneObj* parent, const std::string& pre, u32 n, int depth) {
  for (u32 i = 0; i < n; i++) { static const ESceneObjType ty[] = { ESceneObjType::Fixture, ESceneObjType::SceneObj, ESceneObjType::Group, ESceneObjType::FocusPoint, ESceneObjType::Truss, ESceneObjType::VideoScreen, ESceneObjType::Projector, ESceneObjType::Support };
    Obj o; o.type = depth < 3 ? ty[ch(8)] : ty[ch(2)]; o.id = uuid(); o.pre = pre + idx("child", i); o.at = self; STransformMatrix mat = matrix(); std::string name = gNames ? word() : "Object"; name += " " + std::to_string(++c.names); bool named = o.type != ESceneObjType::Group || ch(3); VCOMError e = 1;
    switch (o.type) { case ESceneObjType::Group: e = named ? m->CreateGroupObject(o.id, mat, name.c_str(), parent, &o.p) : m->CreateGroupObject(o.id, mat, parent, &o.p); break; case ESceneObjType::Fixture: e = m->CreateFixture(o.id, mat, name.c_str(), parent, &o.p); break; case ESceneObjType::SceneObj: e = m->CreateSceneObject(o.id, mat, name.c_str(), parent, &o.p); break; case ESceneObjType::FocusPoint: e = m->CreateFocusPoint(o.id, mat, name.c_str(), parent, &o.p); break; case ESceneObjType::Truss: e = m->CreateTruss(o.id, mat, name.c_str(), parent, &o.p); break; case ESceneObjType::VideoScreen: e = m->CreateVideoScreen(o.id, mat, name.c_str(), parent, &o.p); break; case ESceneObjType::Projector: e = m->CreateProjector(o.id, mat, name.c_str(), parent, &o.p); break; default: e = m->CreateSupport(o.id, mat, name.c_str(), parent, &o.p); }
    if (e || !o.p) { violation("builder", "creating a scene object of type %d failed with %d", (int)o.type, (int)e); return; }
    b.m[o.pre + "type"] = F(o.type); b.m[o.pre + "guid"] = F(o.id); b.m[o.pre + "matrix"] = F(mat); b.m[o.pre + "name"] = named ? name : ""; fillObject(b, c, o); int me = (int)all.size(); all.push_back(o);
    u32 kids = depth < 3 ? (o.type == ESceneObjType::Group ? 1 + many(2) : ch(3) == 1 ? many(2) : 0) : 0; buildChildren(b, c, m, all, me, o.p, o.pre, kids, depth + 1); }
  b.m[pre + "child.count"] = F((size_t)n); }
}
bool buildMvr(IMediaRessourceVectorInterface* p, MvrDoc& doc, const Opt& o) {
  D = choose(C_CFG, 4) == 1 ? 1.0 : 0.2 + choose(C_CFG, 6) / 10.0; double dens = D; gNames = o.names; Map& m = doc.model; Build b{ m }; std::string pre; MCtx c; int rn = o.salt * 1000 + 500;
  if (yes()) p->AddProviderAndProviderVersion(keep(c.models, "Console").c_str(), "1.2"); c.models.clear();
  auto data = [&] { return blob(++rn, o.big ? blobSize() : 1 + ch(300), ch(6)); };
  auto attach = [&](const std::string& name, const std::string& x) { Attached a; a.name = a.entry = name; a.data = x; a.viaFile = choose(C_OP, 3) == 1; VCOMError e; if (a.viaFile) { fsPut(0, o.src + "/" + name, x); e = p->AddFileToMvrFile((o.src + "/" + name).c_str()); } else { std::vector<char> tmp(x.begin(), x.end()); e = p->AddBufferToMvrFile(name.c_str(), tmp.data(), tmp.size()); if (!tmp.empty()) memset(tmp.data(), 0x5a, tmp.size()); } if (e) return false; doc.files.push_back(a); m["attached<" + name + ">"] = c.content[name] = fileText(x); return true; };
  if (o.files) { u32 n = many(3); for (u32 i = 0; i < n; i++) { std::string f = "geo" + std::to_string(i) + variant() + (ch(2) ? ".3ds" : ".glb"); if (attach(f, data())) c.models.push_back(f); } n = many(2); for (u32 i = 0; i < n; i++) { std::string f = "gobo" + std::to_string(i) + variant(); if (attach(f + ".png", data())) c.gobos.push_back(f); } if (ch(3) == 1) attach("notes.txt", data()); }
  // GDTF files
  u32 ng = o.files ? many(2) : 0; bool folder = ng && choose(C_OP, 3) == 1;
  for (u32 i = 0; i < ng; i++) { Opt go = o; go.salt = o.salt * 10 + 1 + i; go.big = false; GdtfDoc gd = planGdtf(go); std::string name = "Acme@Type" + std::to_string(i) + variant() + ".gdtf", path = o.src + (folder ? "/lib/" : "/") + name; VCOMPtr<IGdtfFixture> g(IID_IGdtfFixture); fsMkdirs(0, o.src + "/lib"); if (g->OpenForWrite(path.c_str(), gd.name.c_str(), "Acme", gd.uuid)) continue; buildGdtf(g, gd, go); D = dens;
    bool viaBuffer = !folder && choose(C_OP, 2) == 1;
    if (viaBuffer) { std::string x; if (!toBuffer(g, x)) continue; std::vector<char> tmp(x.begin(), x.end()); if (p->AddBufferToMvrFile(name.c_str(), tmp.data(), tmp.size())) continue; }
    else { if (g->Close()) continue; if (!folder && p->AddFileToMvrFile(path.c_str())) continue; }
    c.gdtfs.push_back(name); doc.gdtfs.push_back({ name, gd }); }
  if (folder) p->AddGdtfFolderLocation((o.src + "/lib").c_str());
  // auxiliary data
  u32 n = many(2); for (u32 i = 0; i < n; i++) { VCOMPtr<ISceneDataProvider> q; std::string nm = word(), ver = txt(); if (p->CreateDataProviderObject(nm.c_str(), ver.c_str(), &q)) continue; std::string pre = idx("data", i); m[pre + "name"] = nm; m[pre + "version"] = ver; u32 k = many(4); for (u32 j = 0; j < k; j++) { std::string key = word() + std::to_string(j), v = txt(); if (!q->AddKeyValue(key.c_str(), v.c_str())) m[pre + "pair[" + std::to_string(j) + "]"] = key + "=" + v; } m[pre + "pair.count"] = F((size_t)k); } m["data.count"] = F((size_t)n);
  n = many(3); for (u32 i = 0; i < n; i++) { Named<IPosition> q; q.name = uniq(c.names); MvrUUID u = uuid(); if (p->CreatePositionObject(u, q.name.c_str(), &q.p)) continue; m[idx("position", i) + "name"] = q.name; m[idx("position", i) + "guid"] = F(u); c.positions.push_back(q); } m["position.count"] = F((size_t)n);
  n = many(3); for (u32 i = 0; i < n; i++) { Named<IClass> q; q.name = uniq(c.names); MvrUUID u = uuid(); if (p->CreateClassObject(u, q.name.c_str(), &q.p)) continue; m[idx("class", i) + "name"] = q.name; m[idx("class", i) + "guid"] = F(u); c.classes.push_back(q); } m["class.count"] = F((size_t)n);
  n = many(3); for (u32 i = 0; i < n; i++) { Named<IMappingDefinition> q; q.name = uniq(c.names); MvrUUID u = uuid(); if (p->CreateMappingDefinitionObject(u, q.name.c_str(), &q.p)) continue; std::string pre = idx("mapdef", i); m[pre + "name"] = q.name; m[pre + "guid"] = F(u); c.mapdefs.push_back({ q.p, u }); IMappingDefinition* p = q.p; SET("x", SetSizeX, (Uint32)ch(8000)); SET("y", SetSizeY, (Uint32)ch(8000)); SET("scale", SetScaleHandling, (GD::EScaleHandlingType)ch(3)); if (yes()) source(b, p, &IMappingDefinition::SetSource, pre + "source.", pre + "source"); } m["mapdef.count"] = F((size_t)n);
  // symbol definitions (the order in which they are handed out is the library's own, so the model names them by their guid)
  n = many(3); for (u32 i = 0; i < n; i++) { Named<ISymDef> q; q.name = uniq(c.names); MvrUUID u = uuid(); if (p->CreateSymDefObject(u, q.name.c_str(), &q.p)) continue; std::string pre = "symdef<" + F(u) + ">."; m[pre + "name"] = q.name; c.symdefs.push_back(q); geometries(b, c, q.p.operator->(), pre, many(2), c.symdefs.size() - 1); } m["symdef.count"] = F((size_t)n);
  // layers
  std::vector<Obj> all; n = 1 + many(2); for (u32 i = 0; i < n; i++) { Obj l; l.type = ESceneObjType::Layer; l.id = uuid(); l.pre = idx("layer", i); l.at = -1; std::string name = uniq(c.names); if (p->CreateLayerObject(l.id, name.c_str(), &l.p)) continue; m[l.pre + "type"] = F(l.type); m[l.pre + "guid"] = F(l.id); m[l.pre + "name"] = name; fillObject(b, c, l); int me = (int)all.size(); all.push_back(l); buildChildren(b, c, p, all, me, l.p, l.pre, many(4), 0); } m["layer.count"] = F((size_t)n);
  // references between objects
  std::vector<Obj*> focus, real; for (auto& x : all) { if (x.type == ESceneObjType::FocusPoint) focus.push_back(&x); if (x.type != ESceneObjType::Layer) real.push_back(&x); }
  for (auto& x : all) { ISceneObj* p = x.p; std::string pre = x.pre;
    if (x.type == ESceneObjType::Fixture && !focus.empty() && yes()) { Obj* f = focus[ch((u32)focus.size())]; if (!p->SetFocusPoint(f->p)) m[pre + "focus"] = F(f->id); }
    if (!real.empty() && ch(3) == 1) { Obj* q = real[ch((u32)real.size())]; if (q != &x && !p->SetMultipatchParent(q->p)) m[pre + "multipatch"] = F(q->id); }
    if (x.type == ESceneObjType::Fixture) { u32 k = many(2); for (u32 j = 0; j < k; j++) { Obj* q = real[ch((u32)real.size())]; VCOMPtr<IConnection> cn; std::string a = word(), z = word(); if (p->CreateConnection(a.c_str(), z.c_str(), q->id, &cn)) break; m[pre + idx("connection", j) + "to"] = F(q->id); m[pre + idx("connection", j) + "own"] = a; m[pre + idx("connection", j) + "other"] = z; m[pre + "connection.count"] = F((size_t)j + 1); } } }
  // a GDTF file that an object uses is handed out with everything in it
  for (auto& g : doc.gdtfs) { bool used = false; for (auto& e : m) if (e.second == g.first && e.first.size() > 5 && !e.first.compare(e.first.size() - 5, 5, ".gdtf")) used = true; if (!used) continue; Map sub = g.second.model; sub["name"] = g.second.name; sub["manufacturer"] = "Acme"; for (auto& e : sub) m["gdtf<" + g.first + ">." + e.first] = e.second; }
  return true;
}
}
