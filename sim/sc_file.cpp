// S24: the file object and the log file on the simulated disk, against a byte-array model.
#include "model.h"
#include "FUtils/FUFile.h"
#include "FUtils/FULogFile.h"
using namespace sim; using namespace model;
namespace
{
	void genFiles(Rng& r, Plan& p, int tier)
	{
		int n = (int) r.range(10, tier ? 120 : 60); bool faults = r.chance(0.6);
		static const int sizes[] = {0, 1, 2, 7, 100, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 70000};
		for (int i = 0; i < n; ++i)
		{
			int x = (int) r.below(26); int64_t s = (int64_t) r.below(3);
			int64_t len = r.chance(0.5) ? sizes[r.below(18)] : (int64_t) r.below(3000);
			if (x < 4) p.ops.push_back(Op("open", {s, (int64_t) r.below(3), (int64_t) r.below(2), (int64_t) r.below(3)}));
			else if (x < 9) p.ops.push_back(Op("read", {s, len}));
			else if (x < 14) p.ops.push_back(Op("write", {s, len, (int64_t) r.below(1000)}));
			else if (x < 16) p.ops.push_back(Op("len", {s}));
			else if (x < 17) p.ops.push_back(Op("flush", {s}));
			else if (x < 19) p.ops.push_back(Op("close", {s, (int64_t) r.below(3)}));
			else if (x < 20) p.ops.push_back(Op("logopen", {(int64_t) r.below(2)}));
			else if (x < 24) p.ops.push_back(Op("log", {(int64_t) r.below(2), (int64_t) r.below(9), len, (int64_t) r.below(100000)}));
			else if (x < 25) p.ops.push_back(Op(r.chance(0.5) ? "logclose" : "logflush", {(int64_t) r.below(2)}));
			else if (r.chance(0.3)) p.ops.push_back(Op("die")); else p.ops.push_back(Op("logclose", {(int64_t) r.below(2)}));
			if (faults && r.chance(0.15))
			{
				static const int kinds[] = {disk::OPEN_FAIL, disk::READ_EIO, disk::READ_SHORT, disk::READ_SHORT, disk::WRITE_ENOSPC, disk::WRITE_ENOSPC, disk::WRITE_EIO, disk::CLOSE_FAIL, disk::SEEK_FAIL, disk::CRASH_WRITE};
				int k = kinds[r.below(10)]; int64_t a = k == disk::OPEN_FAIL || k == disk::SEEK_FAIL || k == disk::WRITE_EIO ? r.range(1, 4) : k == disk::READ_SHORT ? r.range(1, 600) : (r.chance(0.3) ? (int64_t) r.below(40) : (int64_t) r.below(30000));
				p.ops.push_back(Op("fault", {k, a}));
			}
			if (faults && r.chance(0.1)) p.ops.push_back(Op("heal"));
		}
	}
	struct Slot { FUFile* f = nullptr; bool open = false, write = false; int name = 0; S data; size_t pos = 0; bool spoiled = false, refused = false, misused = false; };
	struct Log { FULogFile* f = nullptr; std::vector<std::pair<S, bool>> lines; S path; };
	S pattern(int64_t n, int64_t seed) { S s((size_t) n, 0); for (size_t i = 0; i < s.size(); ++i) s[i] = (char) (seed * 31 + (int64_t) i * 7 + (int64_t) (i / 251)); return s; }
	// What must be in a log: the lines written without a fault, in order and complete; and nothing else if there was no fault.
	void checkLog(const Log& l, const char* when)
	{
		S t, got; disk::get(l.path, t); for (char c : t) if (c != '\r') got += c;
		size_t at = 0; bool clean = true; S all;
		for (auto& x : l.lines)
		{
			all += x.first + "\n"; if (x.second) { clean = false; continue; }
			size_t p = got.find(x.first + "\n", at); if (p == S::npos) violate("log-line-lost", "%s the log does not hold line '%s' (%zu characters)", when, x.first.substr(0, 60).c_str(), x.first.size());
			at = p + x.first.size() + 1;
		}
		if (clean && got != all) violate("log-content", "%s the log holds %zu bytes, the messages have %zu", when, got.size(), all.size());
	}
	void runFiles(const Plan& plan)
	{
		size_t at = 0; std::map<int, S> contents; // what the names hold when no writer is open; absent: unknown
		auto name = [](int n) { return strf(SIMDIR "/file%d", n); };
		disk::put(name(0), pattern(5000, 3)); contents[0] = pattern(5000, 3); S none; contents[1] = "\x01missing";
		int nlog = 0; bool first = true;
		while (at < plan.ops.size() || first)
		{
			first = false;
			// Logs live across the death of the process in the simulator's memory: progress holds the operations that were done.
			size_t start = at; setProgress(start); bool died = false; size_t upto = plan.ops.size();
			for (size_t i = start; i < plan.ops.size(); ++i) if (plan.ops[i].name == "die") { upto = i; break; }
			bool ended = life([&]()
			{
				Slot slot[3]; Log log[2]; std::map<int, S> c = contents; std::map<int, bool> unknown;
				auto spoil = [&](uint64_t before) { return disk::firedHard() != before; };
				disk::disarm();
				for (size_t i = start; i < upto; ++i)
				{
					setProgress(i); const Op& o = plan.ops[i]; uint64_t hard = disk::firedHard();
					if (o.name == "fault") { disk::arm((disk::Kind) (o.arg(0) % disk::KIND_COUNT), o.arg(1)); continue; }
					if (o.name == "heal") { disk::heal(); continue; }
					if (o.name == "logopen")
					{
						Log& l = log[o.arg(0) & 1]; if (l.f) continue; l.path = strf(SIMDIR "/log-%zu-%d", start, nlog++); l.lines.clear();
						l.f = new FULogFile(l.path.c_str()); trace("logopen"); bool isOpen = l.f->GetFile()->IsOpen();
						if (isOpen == spoil(hard)) violate("log-open", "the log file is %s, the disk %s", isOpen ? "open" : "not open", isOpen ? "refused" : "agreed");
						if (!isOpen) { delete l.f; l.f = nullptr; }
						continue;
					}
					if (o.name == "log")
					{
						Log& l = log[o.arg(0) & 1]; if (!l.f) continue; trace(strf("log%d", (int) o.arg(1)));
						S text; for (int64_t k = 0; k < o.arg(2); ++k) text += (char) (33 + (k * 7 + o.arg(3)) % 90); int num = (int) o.arg(3);
						std::vector<S> exp; const char* t = text.c_str();
						switch (o.arg(1))
						{
						case 0: exp.push_back(text); l.f->WriteLine("%s", t); break;
						case 1: exp.push_back("plain message"); l.f->WriteLine("plain message"); break;
						case 2: exp.push_back(text + strf(" and %d of %u", -num, num)); l.f->WriteLine("%s and %d of %u", t, -num, num); break;
						case 3: exp.push_back(strf("[name%d.cpp:%d]", num, num)); exp.push_back(text + "!"); l.f->WriteLine(strf("name%d.cpp", num).c_str(), (uint32) num, "%s!", t); break;
						case 4: exp.push_back("100% of %d"); l.f->WriteLine("100%% of %%d"); break;
						case 5: exp.push_back(""); l.f->WriteLine("%s", ""); break;
						case 6: exp.push_back(text); { S f; for (char ch : text) { f += ch; if (ch == '%') f += '%'; } l.f->WriteLine(f.c_str()); } break;
						case 7: exp.push_back(strf("%f|%10.3f|%x|%c", num * 0.5, num * 0.25, num, 'a' + num % 26)); l.f->WriteLine("%f|%10.3f|%x|%c", num * 0.5, num * 0.25, num, 'a' + num % 26); break;
						default: exp.push_back(strf("%*d", num % 5000, num)); l.f->WriteLine("%*d", num % 5000, num); break;
						}
						bool bad = spoil(hard); for (auto& e : exp) l.lines.push_back({e, bad});
						if (disk::fired() == 0 || !bad) checkLog(l, "after a message");
						continue;
					}
					if (o.name == "logflush") { if (log[o.arg(0) & 1].f) log[o.arg(0) & 1].f->Flush(); continue; }
					if (o.name == "logclose") { Log& l = log[o.arg(0) & 1]; if (!l.f) continue; delete l.f; l.f = nullptr; if (!spoil(hard)) checkLog(l, "after closing"); probe("log closed"); continue; }
					Slot& s = slot[o.arg(0) % 3]; trace(o.name);
					if (o.name == "open")
					{
						if (s.open) { if (s.f->Open(name(2).c_str(), FUFile::READ)) violate("opened-twice", "a second open of an open file object succeeded"); if (!s.f->IsOpen()) violate("open-state", "an open file object is closed by a second open"); continue; }
						int nm = (int) (o.arg(1) % 3); bool w = o.arg(2) & 1; bool busy = false; for (auto& x : slot) if (x.open && x.name == nm && (w || x.write)) busy = true; if (busy) continue;
						FUFile::Mode mode = w ? FUFile::WRITE : FUFile::READ; bool ok; S path = name(nm);
						if (s.f && o.arg(3) != 2) ok = s.f->Open(path.c_str(), mode);
						else { delete s.f; if (o.arg(3) == 2) { s.f = new FUFile(path.c_str(), mode); ok = s.f->IsOpen(); } else { s.f = new FUFile(); if (s.f->IsOpen()) violate("open-state", "a new file object is open"); ok = s.f->Open(fstring(path.c_str()), mode); } }
						bool expect = (w || disk::exists(path)) && !spoil(hard);
						if (ok != expect || s.f->IsOpen() != expect) violate("open-answer", "opening for %s answers %d and the object is %s, but the disk %s", w ? "writing" : "reading", ok, s.f->IsOpen() ? "open" : "closed", expect ? "agreed" : "refused");
						if (S(s.f->GetFilePath().c_str()) != path) violate("file-path", "the file object has another path than it was opened with");
						if (!ok) continue;
						s.open = true; s.write = w; s.name = nm; s.pos = 0; s.spoiled = s.refused = s.misused = false; s.data.clear();
						if (!w) disk::get(path, s.data);
						continue;
					}
					if (!s.open) continue;
					if (o.name == "read")
					{
						S b((size_t) o.arg(1) + 8, '\x5a'); bool ok = s.f->Read(&b[0], (size_t) o.arg(1));
						for (size_t k = b.size() - 8; k < b.size(); ++k) if (b[k] != '\x5a') violate("read-overrun", "Read wrote beyond the length it was asked for");
						if (s.write) { s.misused = true; if (ok && o.arg(1)) violate("read-of-writer", "reading from a file opened for writing answers success"); continue; }
						if (s.spoiled) continue;
						bool fits = s.pos + (size_t) o.arg(1) <= s.data.size();
						if (ok && (!fits || b.compare(0, (size_t) o.arg(1), s.data, s.pos, (size_t) o.arg(1)) != 0)) violate("read-data", "Read answers success but gave other bytes than the file's (%zu bytes at %zu of %zu)", (size_t) o.arg(1), s.pos, s.data.size());
						if (!ok && fits && !spoil(hard)) violate("read-answer", "Read of %zu bytes at %zu of %zu answers failure", (size_t) o.arg(1), s.pos, s.data.size());
						if (spoil(hard)) s.spoiled = true; else s.pos = std::min(s.data.size(), s.pos + (size_t) o.arg(1));
					}
					else if (o.name == "write")
					{
						S b = pattern(o.arg(1), o.arg(2)); bool ok = s.f->Write(b.data(), b.size());
						if (!s.write) { if (ok && !b.empty()) violate("write-of-reader", "writing to a file opened for reading answers success"); continue; }
						if (!ok && !spoil(hard)) violate("write-answer", "Write answers failure on a healthy disk");
						if (!ok) s.refused = true; s.data += b; s.pos += b.size();
					}
					else if (o.name == "len")
					{
						size_t n = s.f->GetLength();
						if (disk::firedHard() == 0 && !s.spoiled && !s.refused && n != s.data.size()) violate("length", "GetLength answers %zu, the file has %zu bytes", n, s.data.size());
						if (spoil(hard)) { s.spoiled = true; s.refused = true; if (n != 0 && n != s.data.size()) violate("length-on-fault", "GetLength answers %zu although the disk failed", n); }
					}
					else if (o.name == "flush")
					{
						s.f->Flush(); S t; if (s.write && disk::firedHard() == 0 && (!disk::get(name(s.name), t) || t != s.data) && !s.refused) violate("flush", "after Flush the disk holds %zu bytes, %zu were written", t.size(), s.data.size());
					}
					else if (o.name == "close")
					{
						bool ok = true; if (o.arg(1) == 0) { delete s.f; s.f = nullptr; } else { ok = s.f->Close(); if (s.f->IsOpen()) violate("open-state", "a closed file object is still open"); }
						s.open = false; S t; bool have = disk::get(name(s.name), t);
						if (s.write && o.arg(1) != 0)
						{
							if (ok && !s.refused && (!have || t != s.data)) violate("write-lost", "every write and the close answered success, but the disk holds %zu of %zu bytes", t.size(), s.data.size());
							probe(ok && !s.refused ? "write acknowledged" : "write refused");
						}
						if (s.write && !s.refused && disk::firedHard() == 0 && t != s.data) violate("write-lost", "the disk holds %zu bytes, %zu were written", t.size(), s.data.size());
						if (!ok && s.write && !s.misused && disk::firedHard() == 0) violate("close-answer", "Close answers failure on a healthy disk");
					}
				}
				if (upto < plan.ops.size()) { for (auto& l : log) if (l.f) checkLog(l, "when the process died"); setProgress(upto); crash(); }
				int open = 0; for (auto& s : slot) delete s.f; for (auto& l : log) if (l.f) { uint64_t hard = disk::firedHard(); delete l.f; if (!spoil(hard)) checkLog(l, "after closing"); }
				(void) open; if (disk::openHandles() != 0) violate("handle-leak", "%d files are still open", disk::openHandles());
			});
			died = !ended; at = died ? (size_t) progress() + 1 : plan.ops.size(); if (died) probe("process died");
			disk::disarm();
		}
	}
	Reg r0("files", genFiles, runFiles);
}
