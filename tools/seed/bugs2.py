# planted bugs about documents and files
SDE='src/SceneDataExchange.cpp'; SDH='src/SceneDataExchange.h'; XFH='src/XmlFileHelper.cpp'; GM='src/GDTFManager.cpp'; ZIP='src/Wrapper/ZIPFileImpl.cpp'; RAWF='src/Wrapper/RawOSFileimpl.cpp'; CGF='src/Implementation/CGdtfFixture.cpp'
bug('C10-short-write-counts','C10','a disk that takes only part of the bytes of one write','a write that stored something counts as a write that stored everything',
 [(RAWF,'''		if ( written == size )
''','''		if ( written > 0 || size == 0 )
''')],
r'''
#include "sdemo.h"
static int shorten = 0;
extern "C" size_t fwrite(const void* p, size_t s, size_t n, FILE* f) { static auto r = real(&fwrite, "fwrite"); if (shorten && s * n > 100 && --shorten == 0) return r(p, 1, s * n / 2, f) / s; return r(p, s, n, f); }
int main() {   // one write is short while a fixture is stored
  for (int at = 0; at < 4; at++) {
    GDTF(g); g->OpenForWrite((W + "a.gdtf").c_str(), "Fixture", "Acme", MvrUUID(1, 2, 3, 4)); std::string big(5000, 'x'); g->AddBufferToGdtfFile("thumb.png", big.data(), big.size(), GD::ERessourceType::RessoureFixture);
    shorten = at; VCOMError e = g->Close(); shorten = 0; GDTF(h); bool good = ok(h->ReadFromFile((W + "a.gdtf").c_str())); check(at || (ok(e) && good), "it works without a fault"); check(!ok(e) || good, "a document that was stored successfully can be read");
  }
  for (int at = 1; at < 5; at++) {
    MVR(m); m->OpenForWrite((W + "a.mvr").c_str()); std::string big(5000, 'x'); m->AddBufferToMvrFile("thumb.png", (char*)big.data(), big.size()); shorten = at; VCOMError e = m->Close(); shorten = 0; MVR(h); check(!ok(e) || ok(h->OpenForRead((W + "a.mvr").c_str())), "a document that was stored successfully can be read");
  }
  _exit(0);
}
''')
bug('C11-name-length-in-characters','C11','an attached file with a name that is not plain ASCII, followed by another one','the place of the directory counts characters of a name instead of bytes',
 [(ZIP,'''@1:			zipArchiveInfo.dwSizeOfCentralDir += kCentralFileHeaderLength + (Uint32)zipFileInfo.fFileName.GetEncodingLength(ETXEncoding::eUTF8);''','''			zipArchiveInfo.dwSizeOfCentralDir += kCentralFileHeaderLength + (Uint32)zipFileInfo.fFileName.GetLength();''')],
r'''
#include "sdemo.h"
int main() {
  const char* names[] = { "first.png", "\xc3\xa4\xc3\xb6.png", "last.png" }; 
  MVR(m); m->OpenForWrite((W + "a.mvr").c_str()); for (auto n : names) m->AddBufferToMvrFile(n, (char*)n, strlen(n)); check(ok(m->Close()), "the document is stored");
  std::string z = slurp(W + "a.mvr"); size_t e = z.size() - 22; auto le = [&](size_t p, int n) { size_t v = 0; while (n--) v = v << 8 | (unsigned char)z[p + n]; return v; };
  check(le(e + 16, 4) + le(e + 12, 4) == e, "the directory has the length that is given"); _exit(0);
}
''')
bug('C10-missing-file-tolerated','C10','a file that was to be stored is gone when the document is closed, or the disk does not let it be looked up','a resource that is gone when the document is closed is left out silently',
 [(XFH,'''	if (existsOnDisk == false) { return false; }
	
	//-------------------------------------------------------------------------------------------------
	// Add the files that will be stored''','''	if (existsOnDisk == false) { return mustExist; }
	
	//-------------------------------------------------------------------------------------------------
	// Add the files that will be stored''')],
r'''
#include "sdemo.h"
int main() {   // a referenced file disappears before the document is closed
  put(W + "model.3ds", "content"); MVR(m); m->OpenForWrite((W + "a.mvr").c_str()); check(ok(m->AddFileToMvrFile((W + "model.3ds").c_str())), "the file is added"); unlink((W + "model.3ds").c_str());
  check(!ok(m->Close()), "storing a document without one of its files is a failure"); _exit(0);
}
''')
bug('C12-inflate-runs-dry','C12','compressed data that ends before the end of its stream','decompression goes on although all data has been used up',
 [(ZIP,'''@1:		bool bError = result < 0;
''','''		bool bError = result < 0 && result != Z_BUF_ERROR;
''')],
r'''
#include "sdemo.h"
int main() {   // the compressed data of an entry is cut
  alarm(30); Entry d; d.name = "description.xml"; d.data = "<GDTF DataVersion=\"1.1\"><FixtureType Name=\"A\"/></GDTF>"; Entry c; c.name = "thumb.png"; c.method = 8; c.raw = std::string("\x4a\x4c\x4a", 3); c.size = 100; c.sum = 5; 
  put(W + "a.gdtf", zip({ d, c })); GDTF(g); check(!ok(g->ReadFromFile((W + "a.gdtf").c_str())), "a damaged document is refused"); _exit(0);
}
''')
bug('C13-backslash-at-write','C13','an archive with an entry whose name has backslashes, from another system','backslashes in the path of a file become separators after the path was checked',
 [(XFH,'''    if ( file )
    {
        IRawOSFilePtr pFile( IID_RawOSFile );
        if ( pFile && VCOM_SUCCEEDED( pFile->Open( file, true, true, true, true ) ) )
''','''    if ( file )
    {
        // some archives come with the separators of another system
        TXString path;
        file->GetFileFullPath( path );
        IFileIdentifierPtr target( IID_FileIdentifier );
        target->Set( path.Replace( "\\\\", TXString( kSeperator ) ) );

        IRawOSFilePtr pFile( IID_RawOSFile );
        if ( pFile && VCOM_SUCCEEDED( pFile->Open( target, true, true, true, true ) ) )
''')],
r'''
#include "sdemo.h"
int main() {
  mkdir((W + "victim").c_str(), 0755); put(W + "victim/mine.txt", "mine"); Entry d; d.name = "GeneralSceneDescription.xml"; d.data = "<GeneralSceneDescription verMajor=\"1\" verMinor=\"6\"><Scene><Layers/></Scene></GeneralSceneDescription>"; Entry x; x.name = "..\\victim\\mine.txt"; x.data = "theirs"; Entry y; y.name = "..\\victim\\new.txt"; y.data = "theirs"; put(W + "a.mvr", zip({ d, x, y }));
  { MVR(m); m->OpenForRead((W + "a.mvr").c_str()); } check(slurp(W + "victim/mine.txt") == "mine" && entries(W + "victim") == 1, "files outside of the working folder are left alone"); _exit(0);
}
''')
bug('C13-listed-before-checked','C13','an archive with an entry that points at a file outside of the working folder','a refused entry is still in the list of files that are removed with the document',
 [(SDE,'''			file->Set(fWorkingFolder, outPath);
			
''','''			file->Set(fWorkingFolder, outPath);
			
			// Add it into the file list
            fFilesInZip.push_back(file);
			
'''),(SDE,'''			// Add it into the file list
            fFilesInZip.push_back(file);
		
        }
''','''        }
''')],
r'''
#include "sdemo.h"
int main() {
  mkdir((W + "victim").c_str(), 0755); put(W + "victim/mine.txt", "mine"); Entry d; d.name = "GeneralSceneDescription.xml"; d.data = "<GeneralSceneDescription verMajor=\"1\" verMinor=\"6\"><Scene><Layers/></Scene></GeneralSceneDescription>"; Entry x; x.name = "../victim/mine.txt"; x.data = "theirs"; put(W + "a.mvr", zip({ d, x }));
  { MVR(m); m->OpenForRead((W + "a.mvr").c_str()); } check(slurp(W + "victim/mine.txt") == "mine", "a file outside of the working folder is left alone"); _exit(0);
}
''')
bug('C14-shared-scratch','C14','two documents with colors that are stored or read by two threads at the same time','one buffer is used for the text of all numbers that are converted',
 [(XFH,'''/*static*/ TXString GdtfConverter::ConvertDouble(double value)
{
	TXString valueStr;
	valueStr << value;
	return valueStr;
''','''/*static*/ TXString GdtfConverter::ConvertDouble(double value)
{
	static TXString valueStr;	// keeps its memory
	valueStr.Clear();
	valueStr << value;
	return valueStr;
''')],
r'''
#include "sdemo.h"
static std::atomic<bool> bad{ false };
static void work(int k) {   // stores documents with its own numbers only
  for (int r = 0; r < 60 && !bad; r++) { std::string p = W + "t" + std::to_string(k) + ".gdtf"; { GDTF(g); g->OpenForWrite(p.c_str(), "Fixture", "Acme", MvrUUID(1, 2, 3, k)); for (int i = 0; i < 200; i++) { VCOMPtr<IGdtfModel> m; g->CreateModel(("M" + std::to_string(i)).c_str(), &m); m->SetLength(k * 1000.5); m->SetWidth(k * 1000.5); m->SetHeight(k * 1000.5); } g->Close(); }
    GDTF(g); if (!ok(g->ReadFromFile(p.c_str()))) { bad = true; return; } size_t n = 0; g->GetModelCount(n); for (size_t i = 0; i < n; i++) { VCOMPtr<IGdtfModel> m; g->GetModelAt(i, &m); double a = 0, b = 0, c = 0; m->GetLength(a); m->GetWidth(b); m->GetHeight(c); if (a != k * 1000.5 || b != a || c != a) bad = true; } } }
int main() { std::vector<std::thread> t; for (int i = 1; i < 9; i++) t.emplace_back(work, i); for (auto& x : t) x.join(); check(!bad, "each document has its own numbers"); _exit(0); }
''')
bug('C11-dmx-value-through-int','C11','a DMX value of a channel with four bytes in the upper half of its range','DMX values are written as numbers of 32 bits',
 [(XFH,'''	dmxValueStr << TXString().itoa(value) << "/" << TXString().itoa( (Sint64)chanlReso);
''','''	dmxValueStr << (Sint32)value << "/" << (Sint32)chanlReso;
''')],
r'''
#include "sdemo.h"
static void one(GD::DmxValue v) {
  { GDTF(g); g->OpenForWrite((W + "a.gdtf").c_str(), "Fixture", "Acme", MvrUUID(1, 2, 3, 4)); VCOMPtr<IGdtfModel> mo; g->CreateModel("M", &mo); VCOMPtr<IGdtfGeometry> ge; g->CreateGeometry(GD::EGdtfObjectType::eGdtfGeometry, "Body", mo, kUnit, &ge);
    VCOMPtr<IGdtfDmxMode> m; g->CreateDmxMode("Mode", &m); m->SetGeometry(ge); VCOMPtr<IGdtfDmxChannel> c; m->CreateDmxChannel(ge, &c); c->SetCoarse(1); c->SetFine(2); c->SetUltra(3); c->SetUber(4); VCOMPtr<IGdtfAttribute> at; g->CreateAttribute("Dimmer", "Dim", &at);
    VCOMPtr<IGdtfDmxLogicalChannel> l; c->CreateLogicalChannel(at, &l); VCOMPtr<IGdtfDmxChannelFunction> f; l->CreateDmxFunction("F", &f); f->SetDefaultValue(v); check(ok(g->Close()), "stored"); }
  GDTF(g); check(ok(g->ReadFromFile((W + "a.gdtf").c_str())), "read"); VCOMPtr<IGdtfDmxMode> m; g->GetDmxModeAt(0, &m); VCOMPtr<IGdtfDmxChannel> c; m->GetDmxChannelAt(0, &c); VCOMPtr<IGdtfDmxLogicalChannel> l; c->GetLogicalChannelAt(0, &l); VCOMPtr<IGdtfDmxChannelFunction> f; 
  size_t n = 0; l->GetDmxFunctionCount(n); bool found = false; for (size_t i = 0; i < n; i++) { l->GetDmxFunctionAt(i, &f); GD::DmxValue d = 0; f->GetDefaultValue(d); found |= d == v; } fprintf(stderr, "%llu\n", (unsigned long long)v); check(found, "the value is what it was"); }
int main() { one(5); one(0x7fffffff); one(0x80000000u); one(0xfffffffeu); _exit(0); }
''')
bug('C12-macro-value-without-function','C12','a macro with a value for a channel function that the mode does not have','the channel function of a visual value of a macro is used without looking whether it was found',
 [(GM,'''						if (channelFunction)
						{
							value->SetChannelFunction(channelFunction);
''','''						value->SetChannelFunction(channelFunction);
						{
''')],
r'''
#include "sdemo.h"
int main() {
  Entry d; d.name = "description.xml"; d.data = "<GDTF DataVersion=\"1.1\"><FixtureType Name=\"A\" ShortName=\"A\" LongName=\"A\" Manufacturer=\"B\" Description=\"\" FixtureTypeID=\"01234567-0123-0123-0123-0123456789AB\"><AttributeDefinitions/><Geometries><Geometry Name=\"Body\" Position=\"{1,0,0,0}{0,1,0,0}{0,0,1,0}{0,0,0,1}\"/></Geometries><DMXModes><DMXMode Name=\"M\" Geometry=\"Body\"><DMXChannels/><Relations/><FTMacros><FTMacro Name=\"X\"><MacroVisual><MacroVisualStep Duration=\"1\" Fade=\"0\" Delay=\"0\"><MacroVisualValue Value=\"1/1\" ChannelFunction=\"Nobody.Knows.It.1\"/></MacroVisualStep></MacroVisual></FTMacro></FTMacros></DMXMode></DMXModes></FixtureType></GDTF>";
  put(W + "a.gdtf", zip({ d })); GDTF(g); g->ReadFromFile((W + "a.gdtf").c_str()); fprintf(stderr, "ok: it is over\n"); _exit(0);
}
''')
bug('C14-symbols-shared','C14','two documents that are open at the same time, one with a reference to a symbol that only the other one defines','the table of symbol definitions is shared by all documents',
 [(SDH,'''		TSymDefMap							fSymDefMap;
''','''		static TSymDefMap					fSymDefMap;
'''),(SDE,'''SceneDataExchange::SceneDataExchange()
''','''TSymDefMap SceneDataExchange::fSymDefMap;

SceneDataExchange::SceneDataExchange()
''')],
r'''
#include "sdemo.h"
static const char* S = "01234567-0123-0123-0123-0123456789AB";
static void write(const std::string& p, bool defined) { Entry d; d.name = "GeneralSceneDescription.xml"; std::string s = S; d.data = "<GeneralSceneDescription verMajor=\"1\" verMinor=\"6\"><Scene>" + (defined ? "<AUXData><Symdef uuid=\"" + s + "\" name=\"Sym\"><ChildList/></Symdef></AUXData>" : std::string()) + "<Layers><Layer uuid=\"11234567-0123-0123-0123-0123456789AB\" name=\"L\"><ChildList><SceneObject uuid=\"21234567-0123-0123-0123-0123456789AB\" name=\"O\"><Geometries><Symbol uuid=\"31234567-0123-0123-0123-0123456789AB\" symdef=\"" + s + "\"/></Geometries></SceneObject></ChildList></Layer></Layers></Scene></GeneralSceneDescription>"; put(p, zip({ d })); }
static bool resolved(Mvr& m) { VCOMPtr<ISceneObj> l, o; m->GetFirstLayer(&l); m->GetFirstChild(l, &o); if (!o) _exit(3); size_t n = 0; o->GetGeometryCount(n); if (n != 1) return false; VCOMPtr<IGeometryReference> r; if (!ok(o->GetGeometryAt(0, &r)) || !r) return false; VCOMPtr<ISymDef> s; return ok(r->GetSymDef(&s)) && s; }
int main() { write(W + "a.mvr", true); write(W + "b.mvr", false); MVR(a); check(ok(a->OpenForRead((W + "a.mvr").c_str())) && resolved(a), "the first document has its symbol"); MVR(b); b->OpenForRead((W + "b.mvr").c_str()); check(!resolved(b), "the second document does not use the symbol of the first one"); _exit(0); }
''')
bug('C15-relation-half-stored','C15','a document with relations, reading it is stopped, and what was read is stored','a relation is stored as if its channels had been found',
 [(GM,'''	if (fMasterDmxChannel) 		{ pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationMaster,			fMasterDmxChannel->GetNodeReference());}
	if (fSlaveChannelFunction)  { pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationSlave,			fSlaveChannelFunction->GetNodeReference());}
''','''	pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationMaster,	fMasterDmxChannel->GetNodeReference());
	pNode->SetNodeAttributeValue(XML_GDTF_DMXRelationSlave,		fSlaveChannelFunction->GetNodeReference());
''')],
r'''
#include "sdemo.h"
int main() {
  { GDTF(g); g->OpenForWrite((W + "a.gdtf").c_str(), "Fixture", "Acme", MvrUUID(1, 2, 3, 4)); VCOMPtr<IGdtfModel> mo; g->CreateModel("M", &mo); VCOMPtr<IGdtfGeometry> ge; g->CreateGeometry(GD::EGdtfObjectType::eGdtfGeometry, "Body", mo, kUnit, &ge); VCOMPtr<IGdtfAttribute> at; g->CreateAttribute("Dimmer", "Dim", &at);
    VCOMPtr<IGdtfDmxMode> m; g->CreateDmxMode("Mode", &m); m->SetGeometry(ge); VCOMPtr<IGdtfDmxChannel> c; m->CreateDmxChannel(ge, &c); c->SetCoarse(1); VCOMPtr<IGdtfDmxLogicalChannel> l; c->CreateLogicalChannel(at, &l); VCOMPtr<IGdtfDmxChannelFunction> f; l->CreateDmxFunction("F", &f); VCOMPtr<IGdtfDmxRelation> r; m->CreateDmxRelation("R", GD::EGdtfDmxRelationType::eGdtfDmxRelationType_Multiply, c, f, &r); check(ok(g->Close()), "stored"); }
  for (int n = 1; n < 400; n++) { GDTF(g); int k = 0; g->SetAbortCallback([&](bool& stop) { stop = ++k >= n; }); bool done = ok(g->ReadFromFile((W + "a.gdtf").c_str())); g->RefreshBuffer(); if (done && k < n) { fprintf(stderr, "ok: stopped at %d places\n", n - 1); break; } }
  _exit(0);
}
''')
bug('C16-buffers-dropped-on-close','C16','the buffer is refreshed after a document with attached buffers was closed','the attached buffers are forgotten when the document is closed',
 [(CGF,'''@2:    FreeBuffer();
''','''    FreeBuffer();
    for(auto b : fBuffersAdded) {delete b.second;} fBuffersAdded.clear();
''')],
r'''
#include "sdemo.h"
int main() { GDTF(g); g->OpenForWrite((W + "a.gdtf").c_str(), "Fixture", "Acme", MvrUUID(1, 2, 3, 4)); std::string d(100, 'x'); g->AddBufferToGdtfFile("thumb.png", (char*)d.data(), d.size(), GD::ERessourceType::RessoureFixture); check(ok(g->Close()), "stored");
  check(ok(g->RefreshBuffer()), "refreshed"); size_t n = 0; check(ok(g->GetBufferLength(n)) && n, "there is a buffer"); std::string b(n, 0); g->ToBuffer(&b[0]); check(b.find("thumb.png") != std::string::npos, "the attached file is in the buffer"); _exit(0); }
''')
bug('C16-old-files-in-buffer','C16','an object that had attached files reads another document, and its buffer is refreshed','files attached to the document that was open before are stored with the new one',
 [(CGF,'''@3:    for(auto b : fBuffersAdded) {delete b.second;} fBuffersAdded.clear();
''','''''')],
r'''
#include "sdemo.h"
int main() { { GDTF(g); g->OpenForWrite((W + "b.gdtf").c_str(), "Other", "Acme", MvrUUID(1, 2, 3, 5)); check(ok(g->Close()), "stored"); }
  GDTF(g); g->OpenForWrite((W + "a.gdtf").c_str(), "Fixture", "Acme", MvrUUID(1, 2, 3, 4)); std::string d(100, 'x'); g->AddBufferToGdtfFile("thumb.png", (char*)d.data(), d.size(), GD::ERessourceType::RessoureFixture); check(ok(g->Close()), "stored"); check(ok(g->ReadFromFile((W + "b.gdtf").c_str())), "the other one is read");
  check(ok(g->RefreshBuffer()), "refreshed"); size_t n = 0; check(ok(g->GetBufferLength(n)) && n, "there is a buffer"); std::string b(n, 0); g->ToBuffer(&b[0]); check(b.find("thumb.png") == std::string::npos, "only its own files are in the buffer"); _exit(0); }
''')
bug('C17-stream-with-error-left-open','C17','the disk is full while a document is stored','a file that could not be written completely is not closed',
 [(RAWF,'''	if ( fTheFile )
''','''	if ( fTheFile && !std::ferror( fTheFile ) )
''')],
r'''
#include "sdemo.h"
#include <sys/resource.h>
#include <signal.h>
static void limit(rlim_t n) { rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); }
int main() { signal(SIGXFSZ, SIG_IGN); std::string d(100000, 'x'); unsigned z = 1; for (char& c : d) c = (z = z * 1664525 + 1013904223) >> 24; int before = fds();
  for (int i = 0; i < 5; i++) { MVR(m); m->OpenForWrite((W + "a.mvr").c_str()); for (int k = 0; k < 5; k++) m->AddBufferToMvrFile(("f" + std::to_string(k)).c_str(), (char*)d.data(), d.size()); limit(20000); VCOMError e = m->Close(); limit(RLIM_INFINITY); check(!ok(e), "it is not stored"); }
  fprintf(stderr, "%d before, %d now\n", before, fds()); check(fds() == before, "no file is left open"); _exit(0); }
''')
bug('C17-partial-file-not-listed','C17','an archive with a damaged entry before another one','files of an archive are only remembered as long as nothing was damaged',
 [(SDE,'''            fFilesInZip.push_back(file);
''','''            if (complete) { fFilesInZip.push_back(file); }
''')],
r'''
#include "sdemo.h"
int main() { Entry d; d.name = "GeneralSceneDescription.xml"; d.data = "<GeneralSceneDescription verMajor=\"1\" verMinor=\"6\"><Scene><Layers/></Scene></GeneralSceneDescription>"; Entry x; x.name = "bad.png"; x.method = 8; x.raw = "nonsense"; x.size = 50; x.sum = 7; Entry y; y.name = "good.png"; y.data = "fine"; put(W + "a.mvr", zip({ d, x, y }));
  { MVR(m); m->OpenForRead((W + "a.mvr").c_str()); } check(entries(W + "MVR_Export") == 0, "nothing is left of the document"); _exit(0); }
''')
