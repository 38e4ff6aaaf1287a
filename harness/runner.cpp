#include <dlfcn.h>
// Scenario interpreter: runs programs over the public API of PTN_Engine under the
// virtual runtime and writes one globally ordered event trace per run.
#include "vrt.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include "PTN_Engine/JobQueue/JobQueue.h"
#include "PTN_Engine/PTN_Engine.h"
#include "PTN_Engine/PTN_Exception.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <csignal>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <system_error>
#include <time.h>
#include <unistd.h>
#include <vector>

using namespace std;
using namespace ptne;

namespace
{
struct Op
{
	int id = 0;
	int g = 0; // the engine or job queue it is performed on
	string name;
	vector<string> a;
};
struct Fn
{
	char kind = 'a';
	string id;
	bool init = true;
	int throwOn = 0;
	vector<Op> body;
	// run state
	bool value = true;
	int calls = 0;
	int copies = 0; // of the function object, anywhere
};
// What a function object holds: counts its copies.
class Ref
{
	Fn *f;

public:
	explicit Ref(Fn *f)
	: f(f)
	{
		++f->copies;
	}
	Ref(const Ref &r)
	: Ref(r.f)
	{
	}
	~Ref()
	{
		--f->copies;
	}
	Ref &operator=(const Ref &) = delete;
	Fn *get() const
	{
		return f;
	}
};
struct Case
{
	string id;
	map<string, string> cfg;
	int runs = 1;
	uint64_t seed0 = 1;
	map<string, Fn> fns;
	map<int, vector<Op>> threads;
};
// What the user's functions throw: exceptions of several types, that differ in what a handler on the way could
// mistake them for. All are reported as User:<function>.
template <typename B>
struct UserExc : B
{
	string f;
	template <typename... A>
	explicit UserExc(const string &x, A &&...a)
	: B(std::forward<A>(a)...)
	, f(x)
	{
	}
};
struct Anything
{
};
[[noreturn]] void throwUser(const string &f)
{
	switch (hash<string>()(f) % 5)
	{
	case 0: throw UserExc<runtime_error>(f, "user exception");
	case 1: throw UserExc<Anything>(f);
	case 2: throw UserExc<PTN_Exception>(f, "user exception");
	case 3: throw UserExc<bad_alloc>(f);
	default: throw UserExc<NotEnoughTokensException>(f);
	}
}

string dec(const string &s)
{
	if (s == "%e")
		return "";
	string o;
	for (size_t i = 0; i < s.size(); ++i)
		if (s[i] == '%' && i + 2 < s.size())
		{
			o += char(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16));
			i += 2;
		}
		else
			o += s[i];
	return o;
}
string js(const string &s)
{
	string o = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\')
		{
			o += '\\';
			o += char(c);
		}
		else if (c < 0x20)
		{
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		}
		else
			o += char(c);
	}
	return o + "\"";
}

// ---- run state (accessed only under the cooperative scheduler)
Case *C = nullptr;
const int ENGINES = 8;
unique_ptr<PTN_Engine> engines[ENGINES];
JobQueue *queues[ENGINES];
map<int, unique_ptr<IFileExporter>> exporters;
unique_ptr<IFileImporter> importer;
map<int, pthread_t> clients;
map<string, int> flags;
// The stream given to execute(): every complete state written to it is an event.
class LogBuf : public streambuf
{
	string acc;
	string tag;

	void put(char c)
	{
		acc += c;
		if (acc.size() >= 3 && acc.compare(acc.size() - 3, 3, "\n\n\n") == 0)
			flushEvent();
	}

protected:
	int overflow(int c) override
	{
		if (c != EOF)
			put(char(c));
		return c;
	}
	streamsize xsputn(const char *p, streamsize n) override
	{
		for (streamsize i = 0; i < n; ++i)
			put(p[i]);
		return n;
	}

public:
	LogBuf(int g, int st)
	: tag(",\"g\":" + to_string(g) + ",\"st\":" + to_string(st))
	{
	}

	void flushEvent()
	{
		if (!acc.empty())
			vrt::emit("{\"e\":\"log\",\"th\":" + to_string(vrt::self()) + tag + ",\"v\":" + js(acc) + "}");
		acc.clear();
	}
};
LogBuf *logBufs[ENGINES][2];
ostream *logStreams[ENGINES][2];
string scratch;
thread_local string *probeOut = nullptr;
thread_local bool failing = false;

void runOps(const vector<Op> &ops, int th);

void callAction(Fn *f)
{
	if (probeOut)
	{
		*probeOut = f->id;
		return;
	}
	int th = vrt::self();
	int n = ++f->calls;
	vrt::emit("{\"e\":\"actb\",\"th\":" + to_string(th) + ",\"f\":" + js(f->id) + "}");
	vrt::callbackPoint();
	runOps(f->body, th);
	bool thr = f->throwOn == n;
	vrt::emit("{\"e\":\"acte\",\"th\":" + to_string(th) + ",\"f\":" + js(f->id) + ",\"x\":" + (thr ? "1" : "0") + "}");
	vrt::callbackPoint();
	if (thr)
		throwUser(f->id);
}
bool callCond(Fn *f)
{
	if (probeOut)
	{
		*probeOut = f->id;
		return true;
	}
	int th = vrt::self();
	int n = ++f->calls;
	vrt::callbackPoint();
	bool thr = f->throwOn == n;
	if (!f->body.empty())
	{
		vrt::emit("{\"e\":\"condb\",\"th\":" + to_string(th) + ",\"f\":" + js(f->id) + "}");
		runOps(f->body, th);
	}
	bool v = f->value;
	vrt::emit("{\"e\":\"cond\",\"th\":" + to_string(th) + ",\"f\":" + js(f->id) + ",\"v\":" + (v ? "1" : "0") +
			  ",\"x\":" + (thr ? "1" : "0") + "}");
	if (thr)
		throwUser(f->id);
	vrt::callbackPoint();
	return v;
}
ActionFunction action(const string &id)
{
	if (id == "-")
		return nullptr;
	Fn *f = &C->fns.at(id);
	return [r = Ref(f)]() { callAction(r.get()); };
}
ConditionFunction condition(const string &id)
{
	if (id == "-")
		return nullptr;
	Fn *f = &C->fns.at(id);
	return [r = Ref(f)]() { return callCond(r.get()); };
}
template <typename F>
string probe(const F &f)
{
	if (!f)
		return "";
	string out = "?";
	probeOut = &out;
	f();
	probeOut = nullptr;
	return out;
}

PTN_Engine::ACTIONS_THREAD_OPTION modeOf(const string &s)
{
	using enum PTN_Engine::ACTIONS_THREAD_OPTION;
	if (s == "SINGLE_THREAD")
		return SINGLE_THREAD;
	if (s == "EVENT_LOOP")
		return EVENT_LOOP;
	if (s == "DETACHED")
		return DETACHED;
	return JOB_QUEUE;
}
string modeStr(PTN_Engine::ACTIONS_THREAD_OPTION m)
{
	using enum PTN_Engine::ACTIONS_THREAD_OPTION;
	switch (m)
	{
	case SINGLE_THREAD: return "SINGLE_THREAD";
	case EVENT_LOOP: return "EVENT_LOOP";
	case DETACHED: return "DETACHED";
	case JOB_QUEUE: return "JOB_QUEUE";
	}
	return "?";
}
ArcProperties::Type typeOf(const string &s)
{
	using enum ArcProperties::Type;
	if (s == "A")
		return ACTIVATION;
	if (s == "D")
		return DESTINATION;
	if (s == "B")
		return BIDIRECTIONAL;
	return INHIBITOR;
}
string typeStr(ArcProperties::Type t)
{
	using enum ArcProperties::Type;
	switch (t)
	{
	case ACTIVATION: return "A";
	case DESTINATION: return "D";
	case BIDIRECTIONAL: return "B";
	case INHIBITOR: return "I";
	}
	return "?";
}
string excName()
{
	try
	{
		throw;
	}
#define U(T)                              \
	catch (const UserExc<T> &u)           \
	{                                     \
		return "User:" + u.f;             \
	}
	U(runtime_error)
	U(Anything)
	U(PTN_Exception)
	U(bad_alloc)
	U(NotEnoughTokensException)
#undef U
#define X(T)              \
	catch (const T &)     \
	{                     \
		return #T;        \
	}
	X(InvalidNameException)
	X(RepeatedPlaceNamesException)
	X(NotInputPlaceException)
	X(RepeatedPlaceException)
	X(RepeatedFunctionException)
	X(InvalidFunctionNameException)
	X(NullTokensException)
	X(NotEnoughTokensException)
	X(OverflowException)
	X(ZeroValueWeightException)
	X(ActivationPlaceRepetitionException)
	X(DestinationPlaceRepetitionException)
	X(InhibitorPlaceRepetitionException)
	X(PTN_Exception)
#undef X
	catch (const system_error &)
	{
		return "std::system_error";
	}
	catch (const exception &)
	{
		return "std::exception";
	}
	catch (...)
	{
		return "unknown";
	}
}

vector<ArcProperties> arcs(const vector<string> &a, size_t &i, const string &t, ArcProperties::Type type)
{
	size_t n = stoul(a[i++]);
	vector<ArcProperties> r;
	for (size_t k = 0; k < n; ++k)
	{
		ArcProperties p;
		p.placeName = dec(a[i++]);
		p.weight = stoull(a[i++]);
		p.transitionName = t;
		p.type = type;
		r.push_back(p);
	}
	return r;
}
// While it exists no file can grow beyond a few bytes, as if the disk were full.
class NoSpace
{
	bool on;
	rlimit old{};

public:
	explicit NoSpace(bool on)
	: on(on)
	{
		if (!on)
			return;
		signal(SIGXFSZ, SIG_IGN);
		getrlimit(RLIMIT_FSIZE, &old);
		rlimit few = old;
		few.rlim_cur = 10;
		setrlimit(RLIMIT_FSIZE, &few);
	}
	~NoSpace()
	{
		if (on)
			setrlimit(RLIMIT_FSIZE, &old);
	}
};
string slurp(const string &path)
{
	ifstream f(path, ios::binary);
	stringstream ss;
	ss << f.rdbuf();
	return ss.str();
}
string arcsJs(const vector<ArcProperties> &v)
{
	string s = "[";
	for (size_t i = 0; i < v.size(); ++i)
		s += string(i ? "," : "") + "[" + js(v[i].placeName) + ",\"" + to_string(v[i].weight) + "\"," +
			 js(typeStr(v[i].type)) + "," + js(v[i].transitionName) + "]";
	return s + "]";
}

struct SpawnArg
{
	int k;
};
void *clientMain(void *p)
{
	SpawnArg *sa = static_cast<SpawnArg *>(p);
	runOps(C->threads.at(sa->k), sa->k);
	return nullptr;
}

// Performs the operation; returns the JSON value of its result ("null" if none).
string perform(const Op &op)
{
	const auto &a = op.a;
	const string &n = op.name;
	unique_ptr<PTN_Engine> &E = engines[op.g];
	JobQueue *&J = queues[op.g];
	if (n == "new")
	{
		E = make_unique<PTN_Engine>(modeOf(a[0]));
	}
	else if (n == "newdefault")
	{
		E = make_unique<PTN_Engine>();
	}
	else if (n == "del")
	{
		E.reset();
	}
	else if (n == "place")
	{
		PlaceProperties p;
		p.name = dec(a[0]);
		p.initialNumberOfTokens = stoull(a[1]);
		p.input = a[2] == "1";
		p.onEnterActionFunctionName = dec(a[3]);
		p.onEnterAction = action(a[4]);
		p.onExitActionFunctionName = dec(a[5]);
		p.onExitAction = action(a[6]);
		E->createPlace(p);
	}
	else if (n == "trans")
	{
		using enum ArcProperties::Type;
		TransitionProperties t;
		t.name = dec(a[0]);
		t.requireNoActionsInExecution = a[1] == "1";
		size_t i = 2;
		t.activationArcs = arcs(a, i, t.name, ACTIVATION);
		t.destinationArcs = arcs(a, i, t.name, DESTINATION);
		t.inhibitorArcs = arcs(a, i, t.name, INHIBITOR);
		size_t k = stoul(a[i++]);
		for (size_t j = 0; j < k; ++j)
			t.additionalConditionsNames.push_back(dec(a[i++]));
		k = stoul(a[i++]);
		for (size_t j = 0; j < k; ++j)
			t.additionalConditions.push_back(condition(a[i++]));
		E->createTransition(t);
	}
	else if (n == "addarc" || n == "rmarc")
	{
		ArcProperties p;
		p.placeName = dec(a[0]);
		p.transitionName = dec(a[1]);
		p.type = typeOf(a[2]);
		p.weight = stoull(a[3]);
		if (n == "addarc")
			E->addArc(p);
		else
			E->removeArc(p);
	}
	else if (n == "regact")
		E->registerAction(dec(a[0]), action(a[1]));
	else if (n == "regcond")
		E->registerCondition(dec(a[0]), condition(a[1]));
	else if (n == "exec")
	{
		E->execute(a[0] == "1", *logStreams[op.g][a[1] == "1"]);
	}
	else if (n == "stop")
		E->stop();
	else if (n == "inc")
		E->incrementInputPlace(dec(a[0]));
	else if (n == "tok")
		return "\"" + to_string(E->getNumberOfTokens(dec(a[0]))) + "\"";
	else if (n == "running")
		return E->isEventLoopRunning() ? "1" : "0";
	else if (n == "getmode")
		return js(modeStr(E->getActionsThreadOption()));
	else if (n == "setmode")
		E->setActionsThreadOption(modeOf(a[0]));
	else if (n == "setsleep")
		E->setEventLoopSleepDuration(PTN_Engine::EventLoopSleepDuration(stol(a[0])));
	else if (n == "getsleep")
		return to_string(E->getEventLoopSleepDuration().count());
	else if (n == "clear")
		E->clearNet();
	else if (n == "props")
	{
		auto ps = E->getPlacesProperties();
		auto ts = E->getTransitionsProperties();
		string s = "{\"places\":[";
		bool first = true;
		for (const auto &p : ps)
		{
			s += string(first ? "" : ",") + "{\"name\":" + js(p.name) + ",\"tok\":\"" +
				 to_string(p.initialNumberOfTokens) + "\",\"input\":" + (p.input ? "1" : "0") +
				 ",\"en\":" + js(p.onEnterActionFunctionName) + ",\"ef\":" + js(probe(p.onEnterAction)) +
				 ",\"xn\":" + js(p.onExitActionFunctionName) + ",\"xf\":" + js(probe(p.onExitAction)) + "}";
			first = false;
		}
		s += "],\"trans\":[";
		first = true;
		for (const auto &t : ts)
		{
			s += string(first ? "" : ",") + "{\"name\":" + js(t.name) +
				 ",\"rna\":" + (t.requireNoActionsInExecution ? "1" : "0") + ",\"act\":" + arcsJs(t.activationArcs) +
				 ",\"dst\":" + arcsJs(t.destinationArcs) + ",\"inh\":" + arcsJs(t.inhibitorArcs) + ",\"cn\":[";
			bool ff = true;
			for (const auto &c : t.additionalConditionsNames)
			{
				s += string(ff ? "" : ",") + js(c);
				ff = false;
			}
			s += "],\"cf\":[";
			ff = true;
			for (const auto &c : t.additionalConditions)
			{
				s += string(ff ? "" : ",") + js(probe(c));
				ff = false;
			}
			s += "]}";
			first = false;
		}
		return s + "]}";
	}
	else if (n == "print")
	{
		ostringstream o;
		E->printState(o);
		return js(o.str());
	}
	else if (n == "export")
	{
		// export <slot> <exporter index>
		string path = scratch + "/" + a[0] + ".xml";
		int k = stoi(a[1]);
		if (!exporters[k])
			exporters[k] = FileExporterFactory::createXMLFileExporter();
		exporters[k]->_export(*E, path);
		return js(slurp(path));
	}
	else if (n == "exportbad")
	{
		// Nothing outside the scratch directory is ever named: the code may delete or replace what it is given.
		string path = a[0] == "dir" ? scratch : a[0] == "full" ? scratch + "/full.xml" : scratch + "/no-such-dir/x.xml";
		auto e = FileExporterFactory::createXMLFileExporter();
		NoSpace noSpace(a[0] == "full");
		e->_export(*E, path);
	}
	else if (n == "import")
	{
		string path = scratch + "/" + a[0] + ".xml";
		// import <slot> <whether to use the importer all imports share>
		unique_ptr<IFileImporter> own;
		auto &im = a[1] == "1" ? importer : own;
		if (!im)
			im = FileImporterFactory::createXMLFileImporter();
		im->_import(path, *E);
	}
	else if (n == "writefile")
	{
		ofstream f(scratch + "/" + a[0] + ".xml", ios::binary);
		f << dec(a[1]);
	}
	// job queue
	else if (n == "jnew")
		J = new JobQueue();
	else if (n == "jdel")
	{
		// jobs may still use the queue while it is being destroyed
		delete J;
		J = nullptr;
	}
	else if (n == "jadd")
		J->addJob(action(a[0]));
	else if (n == "jact")
		J->activate();
	else if (n == "jdeact")
		J->deactivate();
	else if (n == "jisact")
		return J->isActive() ? "1" : "0";
	else
	{
		vrt::die("{\"e\":\"badop\",\"op\":" + js(n) + "}");
	}
	return "null";
}

void runOp(const Op &op, int th)
{
	const string &n = op.name;
	// operations of the harness itself
	if (n == "setc")
	{
		C->fns.at(op.a[0]).value = op.a[1] == "1";
		vrt::emit("{\"e\":\"setc\",\"th\":" + to_string(th) + ",\"f\":" + js(op.a[0]) + ",\"v\":" + op.a[1] + "}");
		vrt::point();
		return;
	}
	if (n == "sleep")
	{
		vrt::sleepMs(stol(op.a[0]));
		return;
	}
	if (n == "spawn")
	{
		int k = stoi(op.a[0]);
		vrt::nextThreadIs(k);
		pthread_t t;
		pthread_create(&t, nullptr, clientMain, new SpawnArg{ k });
		clients[k] = t;
		return;
	}
	if (n == "join")
	{
		pthread_join(clients.at(stoi(op.a[0])), nullptr);
		return;
	}
	if (n == "setflag")
	{
		flags[op.a[0]] = 1;
		vrt::point();
		return;
	}
	if (n == "clearflag")
	{
		flags[op.a[0]] = 0;
		return;
	}
	if (n == "waitflag")
	{
		string f = op.a[0];
		vrt::blockUntil([f]() { return flags[f] != 0; });
		return;
	}
	if (n == "failthread")
	{ // the next call cannot create threads
		failing = true;
		return;
	}
	if (n == "yield")
	{
		vrt::point();
		return;
	}
	if (n == "drain")
	{
		vrt::drain();
		string held;
		for (const auto &[k, f] : C->fns)
			if (f.copies != 0)
				held += (held.empty() ? "" : ",") + js(k);
		vrt::emit("{\"e\":\"drained\",\"th\":" + to_string(th) + ",\"left\":" + to_string(vrt::unfinished()) +
				  ",\"held\":[" + held + "]}");
		return;
	}
	vrt::emit("{\"e\":\"call\",\"th\":" + to_string(th) + ",\"op\":" + to_string(op.id) + "}");
	string v = "null", x;
	if (failing)
		vrt::failThreads("{\"e\":\"nothread\",\"th\":" + to_string(th) + ",\"g\":" + to_string(op.g) + "}");
	try
	{
		v = perform(op);
	}
	catch (...)
	{
		x = excName();
	}
	if (failing)
		vrt::failThreads("");
	failing = false;
	vrt::emit("{\"e\":\"ret\",\"th\":" + to_string(th) + ",\"op\":" + to_string(op.id) + ",\"x\":" + js(x) +
			  ",\"v\":" + v + "}");
	vrt::point();
}

void runOps(const vector<Op> &ops, int th)
{
	for (const auto &op : ops)
		runOp(op, th);
}

// ------------------------------------------------------------------ parsing
vector<string> split(const string &l)
{
	vector<string> r;
	istringstream is(l);
	string s;
	while (is >> s)
		r.push_back(s);
	return r;
}

bool readCase(istream &in, Case &c)
{
	string line;
	vector<Op> *cur = nullptr;
	bool have = false;
	while (getline(in, line))
	{
		auto w = split(line);
		if (w.empty() || w[0][0] == '#')
			continue;
		if (w[0] == "CASE")
		{
			c = Case();
			c.id = w[1];
			have = true;
		}
		else if (w[0] == "CFG")
		{
			for (size_t i = 1; i < w.size(); ++i)
			{
				auto p = w[i].find('=');
				c.cfg[w[i].substr(0, p)] = w[i].substr(p + 1);
			}
		}
		else if (w[0] == "RUNS")
		{
			c.runs = stoi(w[1]);
			c.seed0 = stoull(w[2]);
		}
		else if (w[0] == "FN")
		{
			Fn f;
			f.kind = w[1][0];
			f.id = w[2];
			f.init = w[3] == "1";
			f.throwOn = stoi(w[4]);
			c.fns[f.id] = f;
			cur = &c.fns[f.id].body;
		}
		else if (w[0] == "THREAD")
			cur = &c.threads[stoi(w[1])];
		else if (w[0] == "END")
			cur = nullptr;
		else if (w[0] == "ENDCASE")
			return have;
		else
		{
			Op o;
			o.id = stoi(w[0]);
			size_t k = 1;
			if (w[k][0] == '@')
				o.g = stoi(w[k++].substr(1)) % ENGINES;
			o.name = w[k];
			o.a.assign(w.begin() + long(k) + 1, w.end());
			cur->push_back(o);
		}
	}
	return false;
}

uint64_t cfgU(const Case &c, const char *k, uint64_t d)
{
	auto it = c.cfg.find(k);
	return it == c.cfg.end() ? d : stoull(it->second);
}

[[noreturn]] void child(Case &c, uint64_t seed, char *buf, size_t cap, volatile uint64_t *len)
{
	vrt::setBuffer(buf, cap, len);
	C = &c;
	for (auto &[k, f] : c.fns)
		f.value = f.init;
	vrt::Config cfg;
	cfg.seed = seed;
	cfg.policy = int(cfgU(c, "policy", 0));
	cfg.switchPct = unsigned(cfgU(c, "switch", 30));
	cfg.memPct = unsigned(cfgU(c, "mem", 0));
	cfg.forcePct = unsigned(cfgU(c, "force", 0));
	cfg.spuriousPct = unsigned(cfgU(c, "spurious", 0));
	cfg.stallPct = unsigned(cfgU(c, "stall", 0));
	cfg.stallPt = unsigned(cfgU(c, "stallpt", 0));
	cfg.pctDepth = unsigned(cfgU(c, "depth", 3));
	cfg.pctLen = unsigned(cfgU(c, "len", 2000));
	cfg.maxPoints = cfgU(c, "maxpoints", 400000);
	cfg.maxTimeMs = int64_t(cfgU(c, "maxtime", 4000000));
	cfg.rdSeed = cfgU(c, "rd", 0) ? cfgU(c, "rd", 0) : seed;
	if (cfg.policy == 2)
	{ // mixed: derive the policy from the seed
		cfg.policy = seed % 3 == 0 ? 1 : 0;
		cfg.switchPct = seed % 3 == 1 ? 10 : 40;
		cfg.pctDepth = 2 + seed % 4;
		cfg.pctLen = 200 + unsigned(seed * 7919 % 3000);
		static const unsigned cb[] = { 0, 20, 0, 40, 10, 0, 0, 60 }, pt[] = { 0, 0, 30, 0, 100, 0, 0, 0 };
		cfg.stallPct = cb[seed % 8];
		cfg.stallPt = pt[seed % 8];
	}
	cfg.race = cfgU(c, "race", 0) != 0;
	if (auto it = c.cfg.find("hot"); it != c.cfg.end())
	{
		istringstream is(it->second);
		string x;
		while (getline(is, x, ':'))
			cfg.hot.push_back(uint32_t(stoul(x)));
	}
	Dl_info info;
	if (dladdr(dlsym(RTLD_DEFAULT, "_ZN4ptne10PTN_EngineD1Ev"), &info))
		cfg.base = info.dli_fbase;
	for (int g = 0; g < ENGINES; ++g)
	{
		for (int st = 0; st < 2; ++st)
		{
			logBufs[g][st] = new LogBuf(g, st);
			logStreams[g][st] = new ostream(logBufs[g][st]);
		}
	}
	vrt::start(cfg);
	runOps(c.threads[0], 0);
	for (int g = 0; g < ENGINES; ++g)
		for (auto *b : logBufs[g])
			b->flushEvent();
	vrt::emit("{\"e\":\"end\",\"racy\":\"" + vrt::racyPlaces() + "\",\"points\":" + to_string(vrt::points()) + ",\"switches\":" + to_string(vrt::switches()) +
			  ",\"hash\":\"" + to_string(vrt::schedHash()) + "\"}");
	_exit(0);
}
} // namespace

int main(int argc, char **argv)
{
	if (argc < 4)
	{
		fprintf(stderr, "usage: runner SCENARIOS OUT SCRATCH\n");
		return 2;
	}
	ifstream in(argv[1]);
	FILE *out = fopen(argv[2], "w");
	if (!in || !out)
	{
		fprintf(stderr, "cannot open files\n");
		return 2;
	}
	scratch = string(argv[3]) + "/files"; // of one run
	const size_t cap = 8u << 20;
	char *buf = static_cast<char *>(mmap(nullptr, cap + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	volatile uint64_t *len = reinterpret_cast<volatile uint64_t *>(buf + cap);
	Case c;
	while (readCase(in, c))
	{
		for (int r = 0; r < c.runs; ++r)
		{
			uint64_t seed = c.seed0 + uint64_t(r);
			*len = 0;
			fflush(out);
			filesystem::remove_all(scratch);
			filesystem::create_directory(scratch);
			pid_t pid = fork();
			if (pid == 0)
			{
				// The child's own output is not wanted.
				int nul = open("/dev/null", O_WRONLY);
				dup2(nul, 1);
				dup2(nul, 2);
				child(c, seed, buf, cap, len);
			}
			if (pid < 0)
			{
				fprintf(stderr, "fork failed\n");
				return 2;
			}
			int st = 0;
			bool killed = false;
			struct timespec t0, t1;
			clock_gettime(CLOCK_MONOTONIC, &t0);
			unsigned spin = 0;
			for (;;)
			{
				pid_t w = waitpid(pid, &st, WNOHANG);
				if (w == pid)
					break;
				clock_gettime(CLOCK_MONOTONIC, &t1);
				if (t1.tv_sec - t0.tv_sec > 90)
				{
					kill(pid, SIGKILL);
					waitpid(pid, &st, 0);
					killed = true;
					break;
				}
				poll(nullptr, 0, spin++ < 20 ? 0 : 1);
			}
			fprintf(out, "{\"e\":\"run\",\"case\":%s,\"seed\":%llu}\n", js(c.id).c_str(), (unsigned long long)seed);
			fwrite(buf, 1, *len, out);
			if (killed)
				fprintf(out, "{\"e\":\"hang\",\"why\":\"real time limit\"}\n");
			else if (WIFSIGNALED(st))
				fprintf(out, "{\"e\":\"crash\",\"why\":\"signal %d\"}\n", WTERMSIG(st));
			else if (WEXITSTATUS(st) != 0)
				fprintf(out, "{\"e\":\"crash\",\"why\":\"exit %d\"}\n", WEXITSTATUS(st));
		}
	}
	fclose(out);
	return 0;
}
