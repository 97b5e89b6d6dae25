#include "dlib.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
namespace dl {
thread_local std::function<void(const VCOMError*)> fixtureAsked;
thread_local double D = 0.5; thread_local bool gNames = true;
int here() { return 0; }
bool toBuffer(IGdtfFixture* g, std::string& out) { size_t n = 0; if (g->RefreshBuffer() || g->GetBufferLength(n) || !n) return false; out.assign(n, 0); return !g->ToBuffer(&out[0]); }
std::string blob(u32 key, size_t n, int style) {
  std::string s; s.resize(n); u64 z = key * 0x9E3779B97F4A7C15ull + 7;
  for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; } s[i] = (char)(z >> ((i & 7) * 8)); }
  if (style == 1) for (size_t i = 0; i < n; i++) s[i] = "GDTF <x y=\"1\"/>\r\n"[i % 17];
  if (style == 2) for (size_t i = 0; i < n; i++) s[i] = 0;
  if (style == 3) for (size_t i = 0; i + 4 < n; i += 61) memcpy(&s[i], "PK\x03\x04", 4);
  if (style == 4) for (size_t i = 0; i + 22 < n; i += 97) memcpy(&s[i], "PK\x05\x06\0\0\0\0\1\0\1\0\5\0\0\0\1\0\0\0\0\0", 22);
  if (style == 5) for (size_t i = 0; i < n; i += 3) s[i] = i % 2 ? '\n' : '\r'; return s; }
size_t blobSize() { switch (choose(C_DATA, 16)) { default: return 1 + choose(C_DATA, 2000); case 1: return 1; case 2: return 0; case 3: return 1 + choose(C_DATA, 40); case 4: case 5: return 1 + choose(C_DATA, 60000); case 6: return 4096 * (1 + choose(C_DATA, 8)) + choose(C_DATA, 3) - 1; case 7: return 65536 * (1 + choose(C_DATA, 3)) + choose(C_DATA, 3) - 1; case 8: return 16384 * (1 + choose(C_DATA, 4)) + choose(C_DATA, 3) - 1; } }
// ------------------------------------------------------------------ values as text
static std::string f(double v) { if (v != v) return "nan"; char b[400]; snprintf(b, sizeof b, "%.6f", v); std::string s = b; for (char& x : s) if (x == ',') x = '.'; while (s.size() > 1 && s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); return s == "-0" ? "0" : s; }
static std::string f(size_t v) { return std::to_string(v); }
static std::string f(Sint32 v) { return std::to_string(v); }
static std::string f(Uint32 v) { return std::to_string(v); }
static std::string f(Uint16 v) { return std::to_string(v); }
static std::string f(Sint8 v) { return std::to_string((int)v); }
static std::string f(Uint8 v) { return std::to_string((int)v); }
static std::string f(bool v) { return v ? "yes" : "no"; }
static std::string f(const CieColor& c) { return f(c.fx) + "," + f(c.fy) + "," + f(c.f_Y); }
static std::string f(const STransformMatrix& m) { const double* d = &m.ux; std::string s; for (int i = 0; i < 12; i++) s += (i ? "," : "") + f(d[i]); return s; }
static std::string f(const SVector3& v) { return f(v.x) + "," + f(v.y) + "," + f(v.z); }
static std::string f(const MvrUUID& u) { char b[60]; snprintf(b, sizeof b, "%08x-%08x-%08x-%08x", u.a, u.b, u.c, u.d); return b; }
static std::string f(const STime& t) { char b[60]; snprintf(b, sizeof b, "%d-%d-%d %d:%d:%d", t.fYear, t.fMonth, t.fDay, t.fHour, t.fMinute, t.fSecond); return b; }
static std::string f(unsigned long long v) { return std::to_string(v); }
static std::string f(const char* s) { return s ? s : "(null)"; }
template <class T> static typename std::enable_if<std::is_enum<T>::value, std::string>::type f(T v) { return std::to_string((long)v); }
// ------------------------------------------------------------------ text of maps
static std::string esc(const std::string& s) { std::string r; for (char c : s) if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else r += c; return r; }
static std::string unesc(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\\' && i + 1 < s.size()) { i++; r += s[i] == 'n' ? '\n' : s[i]; } else r += s[i]; return r; }
std::string text(const Map& m) { std::string r; for (auto& e : m) r += esc(e.first) + "\t" + esc(e.second) + "\n"; return r; }
Map parse(const std::string& s) { Map m; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); std::string l = s.substr(p, e - p); size_t t = l.find('\t'); if (t != std::string::npos) m[unesc(l.substr(0, t))] = unesc(l.substr(t + 1)); p = e + 1; } return m; }
std::string keyClass(const std::string& k) { std::string r; bool in = false; for (char c : k) { if (c == '[' || c == '<') in = true; if (!in) r += c; if (c == ']' || c == '>') in = false; } return r; }
std::string diff(const Map& want, const Map& got, bool subset, std::string* firstKey) {
  for (auto& e : want) { auto it = got.find(e.first); if (it == got.end() || it->second != e.second) { if (firstKey) *firstKey = keyClass(e.first); return e.first + ": expected '" + e.second.substr(0, 200) + "', found " + (it == got.end() ? "nothing" : "'" + it->second.substr(0, 200) + "'"); } }
  if (!subset) for (auto& e : got) if (!want.count(e.first)) { if (firstKey) *firstKey = keyClass(e.first); return e.first + ": found '" + e.second.substr(0, 200) + "' which was not there before"; }
  return ""; }
std::string slurp(const std::string& path, bool& ok) { ok = !path.empty() && fsExists(here(), path) && !fsIsDir(here(), path); return ok ? fsGet(here(), path) : ""; }
// ------------------------------------------------------------------ dumping
namespace {
struct Dump { Map& m; bool files;
  void put(const std::string& k, const std::string& v) { m[k] = v; }
  template <class P, class I, class T> void g(const std::string& k, P* p, VCOMError (I::*fn)(T&)) { typename std::remove_const<T>::type v{}; VCOMError e = (p->*fn)(v); if (!e) put(k, f(v)); }
  template <class P, class I> void s(const std::string& k, P* p, MvrString (I::*fn)()) { put(k, f((p->*fn)())); }
  template <class P, class I, class C, class F> void ref(const std::string& k, P* p, VCOMError (I::*fn)(C**), F nm) { C* c = nullptr; VCOMError e = (p->*fn)(&c); if (!e && c) put(k, nm(c)); if (c) c->Release(); }
  template <class P, class I, class C> void ref(const std::string& k, P* p, VCOMError (I::*fn)(C**)) { ref(k, p, fn, [](C* c) { return f(c->GetName()); }); }
  template <class P, class I, class J, class C, class F> void list(const std::string& k, P* p, VCOMError (I::*cnt)(size_t&), VCOMError (J::*at)(size_t, C**), F each) {
    size_t n = 0; VCOMError e = (p->*cnt)(n); if (e) return; put(k + ".count", f(n)); for (size_t i = 0; i < n && i < 5000; i++) { C* c = nullptr; VCOMError r = (p->*at)(i, &c); std::string key = k + "[" + std::to_string(i) + "]"; if (r || !c) { put(key, "error " + std::to_string(r)); continue; } each(c, key + "."); c->Release(); } }
  void file(const std::string& k, const std::string& path) { if (!files) return; bool ok; std::string s = slurp(path, ok); if (ok) { u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (u8)c) * 1099511628211ull; char b[60]; snprintf(b, sizeof b, "%zu bytes %016llx", s.size(), (unsigned long long)h); put(k, b); } else put(k, path.empty() ? "none" : "missing"); }
};
std::string fileText(const std::string& s) { u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (u8)c) * 1099511628211ull; char b[60]; snprintf(b, sizeof b, "%zu bytes %016llx", s.size(), (unsigned long long)h); return b; }
#define G(k, fn) d.g(pre + k, p, &std::remove_pointer<decltype(p)>::type::fn)
#define S(k, fn) d.s(pre + k, p, &std::remove_pointer<decltype(p)>::type::fn)
#define R(k, fn) d.ref(pre + k, p, &std::remove_pointer<decltype(p)>::type::fn)
#define L(k, cnt, at, T) d.list(pre + k, p, &std::remove_pointer<decltype(p)>::type::cnt, &std::remove_pointer<decltype(p)>::type::at, [&](T* p, const std::string& pre)
void dumpMeasurements(Dump& d, IGdtfMeasurement* p, const std::string& pre) { G("physical", GetPhysical); G("intensity", GetLuminousIntensity); G("transmission", GetTransmission); G("interpolation", GetInterpolationTo);
  L("point", GetMeasurementPointCount, GetMeasurementPointAt, IGdtfMeasurementPoint) { G("wave", GetWaveLength); G("energy", GetEnergy); }); }
void dumpColorSpace(Dump& d, IGdtfColorSpace* p, const std::string& pre) { G("mode", GetColorSpace); S("name", GetName); G("red", GetRed); G("green", GetGreen); G("blue", GetBlue); G("white", GetWhite); }
void dumpGeometry(Dump& d, IGdtfGeometry* p, const std::string& pre, int depth) {
  G("type", GetGeometryType); S("name", GetName); R("model", GetModel); G("matrix", GetTransformMatrix); R("parent", GetParent);
  G("lamp", GetLampType); G("power", GetPowerConsumption); G("intensity", GetLuminousIntensity); G("temperature", GetColorTemperature); G("beamAngle", GetBeamAngle); G("fieldAngle", GetFieldAngle); G("beamRadius", GetBeamRadius); G("throwRatio", GetThrowRatio); G("rectangleRatio", GetRectangleRatio); G("beamType", GetBeamType);
  L("break", GetBreakCount, GetBreakAt, IGdtfBreak) { G("break", GetDmxBreak); G("address", GetDmxAddress); });
  R("reference", GetGeometryReference); S("texture", GetTexture); R("spectrum", GetEmitterSpectrum);
  G("colorType", GetColorType); G("laserColor", GetLaserColor); G("output", GetOutputStrength); R("emitter", GetEmitter); G("diameter", GetBeamDiameter); G("divMin", GetBeamDivergenceMin); G("divMax", GetBeamDivergenceMax); G("scanPan", GetScanAnglePan); G("scanTilt", GetScanAngleTilt); G("scanSpeed", GetScanSpeed);
  L("protocol", GetLaserProtocolCount, GetLaserProtocolAt, IGdtfLaserProtocol) { S("name", GetName); });
  S("connectorType", GetConnectorType); G("component", GetComponentType); S("signal", GetSignalType); G("pins", GetPinCount); G("layer", GetSignalLayer); G("orientation", GetOrientation); S("wireGroup", GetWireGroup); G("payload", GetElectricalPayLoad); G("voltMin", GetVoltageRangeMin); G("voltMax", GetVoltageRangeMax); G("freqMin", GetFrequencyRangeMin); G("freqMax", GetFrequencyRangeMax); G("cosPhi", GetCosPhi); G("maxPayload", GetMaxPayLoad); G("voltage", GetVoltage); G("fuseCurrent", GetFuseCurrent); G("fuseRating", GetFuseRating);
  L("pinPatch", GetPinPatchCount, GetPinPatchAt, IGdtfPinPatch) { R("to", GetLinkedWiringObject); G("fromPin", GetFromPin); G("toPin", GetToPin); });
  G("inventory", GetInventoryCount); R("structLink", GetStructureLinkedGeometry); G("structure", GetStructureType); G("crossSection", GetCrossSectionType); G("crossHeight", GetCrossSectionHeight); G("crossWall", GetCrossSectionWallThickness); S("trussCross", GetTrussCrossSection);
  G("supportType", GetSupportType); G("capX", GetCapacityX); G("capY", GetCapacityY); G("capZ", GetCapacityZ); G("capXX", GetCapacityXX); G("capYY", GetCapacityYY); G("capZZ", GetCapacityZZ); S("rope", GetRopeCrossSection); G("ropeOffset", GetRopeOffset); G("resX", GetResistanceX); G("resY", GetResistanceY); G("resZ", GetResistanceZ); G("resXX", GetResistanceXX); G("resYY", GetResistanceYY); G("resZZ", GetResistanceZZ);
  if (depth < 12) L("child", GetInternalGeometryCount, GetInternalGeometryAt, IGdtfGeometry) { dumpGeometry(d, p, pre, depth + 1); }); }
void dumpFunction(Dump& d, IGdtfDmxChannelFunction* p, const std::string& pre) {
  S("name", GetName); R("attribute", GetAttribute); S("originalAttribute", GetOriginalAttribute); G("start", GetStartAddress); G("end", GetEndAddress); G("physFrom", GetPhysicalStart); G("physTo", GetPhysicalEnd); G("fade", GetRealFade); G("acceleration", GetRealAcceleration); R("wheel", GetOnWheel); R("emitter", GetEmitter); R("filter", GetFilter); G("default", GetDefaultValue); R("colorSpace", GetColorSpace); R("gamut", GetGamut); R("profile", GetDMXProfile); G("min", GetMin); G("max", GetMax); S("customName", GetCustomName);
  { IGdtfDmxChannel* c = nullptr; GD::DmxValue a = 0, b = 0; if (!p->GetModeMasterChannel(&c, a, b) && c) d.put(pre + "masterChannel", f(c->GetName()) + " " + f((size_t)a) + "-" + f((size_t)b)); if (c) c->Release(); }
  { IGdtfDmxChannelFunction* c = nullptr; GD::DmxValue a = 0, b = 0; if (!p->GetModeMasterFunction(&c, a, b) && c) d.put(pre + "masterFunction", f(c->GetName()) + " " + f((size_t)a) + "-" + f((size_t)b)); if (c) c->Release(); }
  L("set", GetDmxChannelSetCount, GetDmxChannelSetAt, IGdtfDmxChannelSet) { S("name", GetName); G("start", GetDmxStartAddress); G("end", GetDmxEndAddress); G("physFrom", GetPhysicalStart); G("physTo", GetPhysicalEnd); G("slot", GetWheelSlot); });
  L("subset", GetDmxSubChannelSetCount, GetDmxSubChannelSetAt, IGdtfDmxSubChannelSet) { S("name", GetName); G("physFrom", GetPhysicalFrom); G("physTo", GetPhysicalTo); d.ref(pre + "unit", p, &IGdtfDmxSubChannelSet::GetSubPhysicalUnit, [](IGdtfSubPhysicalUnit* u) { GD::EGdtfSubPhysicalUnitType t{}; u->GetType(t); return f(t); }); R("profile", GetDMXProfile); }); }
void dumpMode(Dump& d, IGdtfDmxMode* p, const std::string& pre) {
  S("name", GetName); S("description", GetDescription); R("geometry", GetGeometry);
  L("channel", GetDmxChannelCount, GetDmxChannelAt, IGdtfDmxChannel) { S("name", GetName); G("break", GetDmxBreak); G("coarse", GetCoarse); G("fine", GetFine); G("ultra", GetUltra); G("uber", GetUber); bool h = false; p->HasHighlight(h); d.put(pre + "hasHighlight", f(h)); if (h) G("highlight", GetHighlight); R("geometry", GetGeometry); R("initial", GetInitialFunction);
    L("logical", GetLogicalChannelCount, GetLogicalChannelAt, IGdtfDmxLogicalChannel) { S("name", GetName); R("attribute", GetAttribute); G("snap", GetDmxSnap); G("master", GetDmxMaster); G("mib", GetMoveInBlackFrames); G("limit", GetDmxChangeTimeLimit); L("function", GetDmxFunctionCount, GetDmxFunctionAt, IGdtfDmxChannelFunction) { dumpFunction(d, p, pre); }); }); });
  L("relation", GetDmxRelationCount, GetDmxRelationAt, IGdtfDmxRelation) { S("name", GetName); R("master", GetMasterChannel); R("slave", GetSlaveChannel); G("type", GetRelationType); });
  L("macro", GetDmxMacroCount, GetDmxMacroAt, IGdtfMacro) { S("name", GetName); R("function", GetChannelFunction);
    { IGdtfMacroDMX* x = nullptr; if (!p->GetMacroDMX(&x) && x) { std::string q = pre + "dmx."; IGdtfMacroDMX* p = x; const std::string& pre = q; L("step", GetStepCount, GetStepAt, IGdtfMacroDMXStep) { G("duration", GetDuration); L("value", GetDMXValueCount, GetDMXValueAt, IGdtfMacroDMXValue) { G("value", GetDmxValue); R("channel", GetDmxChannel); }); }); } if (x) x->Release(); }
    { IGdtfMacroVisual* x = nullptr; if (!p->GetMacroVisual(&x) && x) { std::string q = pre + "visual."; IGdtfMacroVisual* p = x; const std::string& pre = q; L("step", GetVisualStepCount, GetVisualStepAt, IGdtfMacroVisualStep) { G("duration", GetDuration); G("fade", GetFade); G("delay", GetDelay); L("value", GetVisualValueCount, GetVisualValueAt, IGdtfMacroVisualValue) { G("value", GetDmxValue); R("function", GetDmxChannel); }); }); } if (x) x->Release(); } }); }
}
void dumpGdtf(IGdtfFixture* p, Map& out, bool files) {
  Dump d{ out, files }; std::string pre;
  S("name", GetName); S("manufacturer", GetManufacturer); G("guid", GetFixtureGUID); S("description", GetFixtureTypeDescription); S("shortName", GetShortName); S("longName", GetLongName); S("thumbnail", GetFixtureThumbnail);
  bool has = false; p->HasLinkedFixtureGUID(has); d.put("hasLinked", f(has)); if (has) G("linked", GetLinkedFixtureGUID); G("children", GetCanHaveChildren); G("tempLow", GetOperatingTemperatureLow); G("tempHigh", GetOperatingTemperatureHigh); G("weight", GetWeight); G("leg", GetLegHeight); G("thumbX", GetThumbnailOffsetX); G("thumbY", GetThumbnailOffsetY);
  if (files) { d.file("thumbnail.png", f(p->GetFixtureThumbnail_PNG_FullPath())); d.file("thumbnail.svg", f(p->GetFixtureThumbnail_SVG_FullPath())); }
  L("activation", GetActivationGroupCount, GetActivationGroupAt, IGdtfActivationGroup) { S("name", GetName); });
  L("featureGroup", GetFeatureGroupCount, GetFeatureGroupAt, IGdtfFeatureGroup) { S("name", GetName); S("pretty", GetPrettyName); L("feature", GetFeatureCount, GetFeatureAt, IGdtfFeature) { S("name", GetName); }); });
  L("attribute", GetAttributeCount, GetAttributeAt, IGdtfAttribute) { S("name", GetName); S("pretty", GetPrettyName); R("activation", GetActivationGroup); R("feature", GetFeature); R("main", GetMainAttribute); G("unit", GetPhysicalUnit); G("color", GetColor); L("sub", GetSubPhysicalUnitCount, GetSubPhysicalUnitAt, IGdtfSubPhysicalUnit) { G("type", GetType); G("from", GetPhysicalFrom); G("to", GetPhysicalTo); G("unit", GetPhysicalUnit); }); });
  L("wheel", GetWheelCount, GetWheelAt, IGdtfWheel) { S("name", GetName); L("slot", GetWheelSlotCount, GetWheelSlotAt, IGdtfWheelSlot) { S("name", GetName); G("color", GetColor); S("gobo", GetGobo); if (d.files) d.file(pre + "gobo.file", f(p->GetGoboFileFullPath())); R("filter", GetFilter); G("duration", GetDuration); G("width", GetWidth); G("height", GetHeight); G("fps", GetFPS);
      size_t n = 0; p->GetPrismFacetCount(n); d.put(pre + "facet.count", f(n)); for (size_t i = 0; i < n; i++) { IGdtfWheelSlotPrismFacet* c = nullptr; size_t at = i; if (!p->GetPrismFacetAt(at, &c) && c) { d.g(pre + "facet[" + std::to_string(i) + "].color", c, &IGdtfWheelSlotPrismFacet::GetColor); d.g(pre + "facet[" + std::to_string(i) + "].matrix", c, &IGdtfWheelSlotPrismFacet::GetTransformMatrix); } if (c) c->Release(); }
      IGdtfWheelSlotAnimationSystem* a = nullptr; if (!p->GetAnimationSystem(&a) && a) { std::string q = pre + "animation."; IGdtfWheelSlotAnimationSystem* p = a; const std::string& pre = q; G("x1", GetP1_X); G("y1", GetP1_Y); G("x2", GetP2_X); G("y2", GetP2_Y); G("x3", GetP3_X); G("y3", GetP3_Y); G("radius", GetRadius); } if (a) a->Release(); }); });
  L("model", GetModelCount, GetModelAt, IGdtfModel) { S("name", GetName); G("length", GetLength); G("width", GetWidth); G("height", GetHeight); G("primitive", GetPrimitiveType); S("file", GetGeometryFileName); G("svgX", GetSVGOffsetX); G("svgY", GetSVGOffsetY); G("sideX", GetSVGSideOffsetX); G("sideY", GetSVGSideOffsetY); G("frontX", GetSVGFrontOffsetX); G("frontY", GetSVGFrontOffsetY);
    if (d.files) { d.file(pre + "3ds", f(p->GetGeometryFile_3DS_FullPath())); d.file(pre + "svg", f(p->GetGeometryFile_SVG_FullPath())); d.file(pre + "gltf", f(p->GetGeometryFile_GLTF_FullPath())); d.file(pre + "3dsLow", f(p->GetGeometryFile_3DSLow_FullPath())); d.file(pre + "3dsHigh", f(p->GetGeometryFile_3DSHigh_FullPath())); d.file(pre + "gltfLow", f(p->GetGeometryFile_GLTFLow_FullPath())); d.file(pre + "gltfHigh", f(p->GetGeometryFile_GLTFHigh_FullPath())); d.file(pre + "svgSide", f(p->GetGeometryFile_SVGSide_FullPath())); d.file(pre + "svgFront", f(p->GetGeometryFile_SVGFront_FullPath())); } });
  L("geometry", GetGeometryCount, GetGeometryAt, IGdtfGeometry) { dumpGeometry(d, p, pre, 0); });
  L("revision", GetRevisionCount, GetRevisionAt, IGdtfRevision) { S("text", GetText); G("date", GetDate); G("user", GetUserId); S("by", GetModifiedBy); });
  L("mode", GetDmxModeCount, GetDmxModeAt, IGdtfDmxMode) { dumpMode(d, p, pre); });
  { IGdtf_FTRDM* x = nullptr; if (!p->GetRDM(&x) && x) { std::string q = "rdm."; IGdtf_FTRDM* p = x; const std::string& pre = q; G("manufacturer", GetManufacturerID); G("device", GetDeviceModelID); L("software", GetSoftwareVersionIDCount, GetSoftwareVersionIDAt, IGdtfSoftwareVersionID) { G("value", GetValue); L("personality", GetDMXPersonalityCount, GetDMXPersonalityAt, IGdtfDMXPersonality) { size_t v = 0; if (!p->GetValue(v)) d.put(pre + "value", f(v)); R("mode", GetDmxMode); }); }); } if (x) x->Release(); }
  { IGdtfColorSpace* x = nullptr; if (!p->GetColorSpace(&x) && x) dumpColorSpace(d, x, "colorSpace."); if (x) x->Release(); }
  L("emitter", GetEmitterCount, GetEmitterAt, IGdtfPhysicalEmitter) { S("name", GetName); G("color", GetColor); S("diode", GetDiodePart); G("wave", GetDominantWaveLength); L("measurement", GetMeasurementCount, GetMeasurementAt, IGdtfMeasurement) { dumpMeasurements(d, p, pre); }); });
  L("filter", GetFilterCount, GetFilterAt, IGdtfFilter) { S("name", GetName); G("color", GetColor); L("measurement", GetMeasurementCount, GetMeasurementAt, IGdtfMeasurement) { dumpMeasurements(d, p, pre); }); });
  L("profile", GetDMXProfileCount, GetDMXProfileAt, IGdtfDMXProfile) { S("name", GetName); L("point", GetPointCount, GetPointAt, IGdtfPoint) { G("percent", GetDMXPercentage); G("c3", GetCFC3); G("c2", GetCFC2); G("c1", GetCFC1); G("c0", GetCFC0); }); });
  L("cri", GetCRIGroupCount, GetCRIGroupAt, IGdtfCRIGroup) { G("temperature", GetColorTemperature); L("sample", GetCRICount, GetCRIAt, IGdtfCRI) { G("index", GetColorRenderingIndex); }); });
  L("connector", GetConnectorCount, GetConnectorAt, IGdtfConnector) { S("name", GetName); S("type", GetType); G("break", GetDmxBreak); G("gender", GetGender); G("length", GetLength); });
  L("colorSpaces", GetAdditionalColorSpaceCount, GetAdditionalColorSpaceAt, IGdtfColorSpace) { dumpColorSpace(d, p, pre); });
  L("gamut", GetGamutCount, GetGamutAt, IGdtfGamut) { S("name", GetName); size_t n = 0; p->GetPointCount(n); d.put(pre + "point.count", f(n)); for (size_t i = 0; i < n; i++) { CieColor c{}; if (!p->GetPointAt(i, c)) d.put(pre + "point[" + std::to_string(i) + "]", f(c)); } });
  { IGdtfArtNet* x = nullptr; if (!p->GetArtNet(&x) && x) { std::string q = "artnet."; IGdtfArtNet* p = x; const std::string& pre = q; L("map", GetMapCount, GetMapAt, IGdtfMap) { G("key", GetKey); G("value", GetValue); }); } if (x) x->Release(); }
  { IGdtfSACN* x = nullptr; if (!p->GetSACN(&x) && x) { std::string q = "sacn."; IGdtfSACN* p = x; const std::string& pre = q; L("map", GetMapCount, GetMapAt, IGdtfMap) { G("key", GetKey); G("value", GetValue); }); } if (x) x->Release(); }
  if (files) { size_t n = 0; if (!p->GetImageRessourcesCount(n)) { std::map<std::string, int> all; for (size_t i = 0; i < n; i++) { std::string path = f(p->GetImageRessourcesPathAt(i)); size_t s = path.rfind('/'), q = s ? path.rfind('/', s - 1) : s; std::string dir = q == std::string::npos ? "" : path.substr(q + 1, s - q); if (dir.compare(0, 6, "wheels") && dir.compare(0, 6, "models")) dir = ""; d.file("image<" + dir + (s == std::string::npos ? path : path.substr(s + 1)) + ">", path); } } }
}
// ------------------------------------------------------------------ MVR
namespace {
void dumpSource(Dump& d, ISource* p, const std::string& pre) { S("value", GetValue); S("geometry", GetLinkedGeometry); G("type", GetType); }
void dumpGeoRef(Dump& d, IGeometryReference* p, const std::string& pre) { bool sym = false; p->GetIsSymbol(sym); d.put(pre + "symbol", f(sym)); if (!sym) { std::string path = f(p->GetFileForGeometry()); size_t at = path.rfind('/'); d.put(pre + "file", at == std::string::npos ? path : path.substr(at + 1)); if (d.files) d.file(pre + "file.content", path); } else R("def", GetSymDef); G("matrix", GetTransfromMatrix); }
std::string guidOf(ISceneObj* o) { MvrUUID u; o->GetGuid(u); return f(u); }
void dumpScene(Dump& d, IMediaRessourceVectorInterface* m, ISceneObj* p, const std::string& pre, int depth) {
  ESceneObjType t{}; p->GetType(t); d.put(pre + "type", f(t)); S("name", GetName); G("guid", GetGuid); G("matrix", GetTransfromMatrix);
  L("geometry", GetGeometryCount, GetGeometryAt, IGeometryReference) { dumpGeoRef(d, p, pre); }); R("class", GetClass); d.ref(pre + "multipatch", p, &ISceneObj::GetMultipatchParent, guidOf);
  S("gdtf", GetGdtfName); S("gdtfMode", GetGdtfMode); S("function", GetFunction); d.ref(pre + "focus", p, &ISceneObj::GetFocusPoint, guidOf); R("position", GetPosition);
  { size_t n = 0; if (!p->GetAdressCount(n)) { d.put(pre + "address.count", f(n)); for (size_t i = 0; i < n; i++) { SDmxAdress a{}; if (!p->GetAdressAt(i, a)) d.put(pre + "address[" + std::to_string(i) + "]", f((size_t)a.fBreakId) + "." + f((size_t)a.fAbsuluteAdress)); } } }
  G("unit", GetUnitNumber); S("id", GetFixtureId); G("idNumeric", GetFixtureIdNumeric); G("color", GetColor); G("typeId", GetFixtureTypeId); G("customId", GetCustomId); S("gobo", GetGobo); G("goboRotation", GetGoboRotation); G("shadow", GetCastShadow); G("invertPan", GetDMXInvertPan); G("invertTilt", GetDMXInvertTilt);
  if (d.files) d.file(pre + "gobo.file", f(p->GetGoboFullPath()));
  L("mapping", GetMappingCount, GetMappingAt, IMapping) { G("def", GetLinkedDefUuid); G("ux", GetUx); G("uy", GetUy); G("ox", GetOx); G("oy", GetOy); G("rz", GetRz); });
  { size_t n = 0; if (!p->GetProtocolsCount(n)) { d.put(pre + "protocol.count", f(n)); for (size_t i = 0; i < n; i++) { SProtocol v{}; SProtocol* q = &v; if (!p->GetProtocolAt(i, &q) && q) d.put(pre + "protocol[" + std::to_string(i) + "]", f(q->fGeometry) + "|" + f(q->fName) + "|" + f(q->fType) + "|" + f(q->fVersion) + "|" + f(q->fTransmision)); } } }
  if (t == ESceneObjType::VideoScreen) d.ref(pre + "screenSource.", p, &ISceneObj::GetVideoScreenSource, [&](ISource* s) { dumpSource(d, s, pre + "screenSource."); return std::string("yes"); });
  if (t == ESceneObjType::Projector) { d.ref(pre + "projectorSource.", p, &ISceneObj::GetProjectorSource, [&](ISource* s) { dumpSource(d, s, pre + "projectorSource."); return std::string("yes"); }); G("scale", GetScaleHandling); }
  L("connection", GetConnectionCount, GetConnectionAt, IConnection) { G("to", GetToObject); S("own", GetOwn); S("other", GetOther); });
  L("command", GetCustomCommandCount, GetCustomCommandAt, ICustomCommand) { S("function", GetChannelFunction); G("percentage", IsPercentage); G("value", GetValue); });
  L("alignment", GetAlignmentCount, GetAlignmentAt, IAlignment) { S("beam", GetBeamGeometry); G("up", GetUpVector); G("direction", GetDirection); });
  L("overwrite", GetOverwriteCount, GetOverwriteAt, IOverwrite) { S("universal", GetUniversal); S("target", GetTarget); });
  if (d.files && t != ESceneObjType::Layer && t != ESceneObjType::Group) { IGdtfFixture* g = nullptr; if (fixtureAsked) fixtureAsked(nullptr); VCOMError ge = p->GetGdtfFixture(&g); if (fixtureAsked) fixtureAsked(&ge); if (!ge && g) { d.put(pre + "gdtf.fixture", f(g->GetName())); std::string gp = "gdtf<" + f(p->GetGdtfName()) + ">."; if (!d.m.count(gp + "name")) { Map sub; dumpGdtf(g, sub, true); for (auto& e : sub) d.m[gp + e.first] = e.second; } } if (g) g->Release(); }
  if (depth < 12) { size_t n = 0; ISceneObj* c = nullptr; VCOMError e = m->GetFirstChild(p, &c); while (!e && c && n < 3000) { dumpScene(d, m, c, pre + "child[" + std::to_string(n) + "].", depth + 1); n++; ISceneObj* nx = nullptr; e = m->GetNextObject(c, &nx); c->Release(); c = nx; } if (c) c->Release(); d.put(pre + "child.count", f(n)); } }
}
void dumpMvr(IMediaRessourceVectorInterface* p, Map& out, bool files) {
  Dump d{ out, files }; std::string pre;
  L("data", GetDataProviderObjectCount, GetDataProviderObjectAt, ISceneDataProvider) { S("name", GetProviderName); S("version", GetVersion); size_t n = 0; p->GetKeyValueCount(n); d.put(pre + "pair.count", f(n)); for (size_t i = 0; i < n; i++) { std::string k = f(p->GetKeyAt(i)); d.put(pre + "pair[" + std::to_string(i) + "]", k + "=" + f(p->GetValueAt(i))); } });
  L("position", GetPositionObjectCount, GetPositionObjectAt, IPosition) { S("name", GetName); G("guid", GetGuid); });
  L("class", GetClassCount, GetClassAt, IClass) { S("name", GetName); G("guid", GetGuid); });
  { size_t n = 0; p->GetSymDefCount(n); d.put("symdef.count", f(n)); for (size_t i = 0; i < n; i++) { ISymDef* s = nullptr; if (p->GetSymDefAt(i, &s) || !s) { d.put("symdef<error>", "error"); continue; } MvrUUID u; s->GetGuid(u); std::string pre = "symdef<" + f(u) + ">."; ISymDef* p = s; S("name", GetName); L("geometry", GetGeometryCount, GetGeometryAt, IGeometryReference) { dumpGeoRef(d, p, pre); }); s->Release(); } }
  L("mapdef", GetMappingDefinitionCount, GetMappingDefinitionAt, IMappingDefinition) { S("name", GetName); G("guid", GetGuid); G("x", GetSizeX); G("y", GetSizeY); G("scale", GetScaleHandling); d.ref(pre + "source", p, &IMappingDefinition::GetSource, [&](ISource* s) { dumpSource(d, s, pre + "source."); return std::string("yes"); }); });
  { size_t n = 0; ISceneObj* c = nullptr; VCOMError e = p->GetFirstLayer(&c); while (!e && c && n < 1000) { dumpScene(d, p, c, "layer[" + std::to_string(n) + "].", 0); n++; ISceneObj* nx = nullptr; e = p->GetNextObject(c, &nx); c->Release(); c = nx; } if (c) c->Release(); d.put("layer.count", f(n)); }
  if (files) { size_t n = 0; p->GetAttachedFileCount(n); for (size_t i = 0; i < n; i++) { std::string path = f(p->GetAttachedFileCountAt(i)); size_t s = path.rfind('/'); d.file("attached<" + (s == std::string::npos ? path : path.substr(s + 1)) + ">", path); } }
}
}
