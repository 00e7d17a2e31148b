// Sending of mails: what the server accepted is what was sent, failures are reported, connection stays in step
#include "common.h"
#include "io.h"
#include <string>
#include <map>
#include <algorithm>
#include "lightspeed/utils/sendmail.h"
#include "lightspeed/base/streams/netio.tcc"
#include "lightspeed/base/streams/fileiobuff.tcc"
#include "lightspeed/base/streams/memfile.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/exceptions/netExceptions.h"

static INetworkServices &svc() { return INetworkServices::getNetServices(); }
struct Fds { int n; Fds() : n(sim::openFds()) {} void check(const char *w) { int m = sim::openFds(); SIM_CHECK(m == n, "fd-leak", "%s: %d descriptors left open:%s", w, m - n, sim::openFdNames().c_str()); } };
static ConstStrA cs(const std::string &s) { return ConstStrA(s.data(), s.size()); }
struct Mail { std::string from, text; std::vector<std::string> to; };
static std::string lines(const std::string &t) { std::string o; for (size_t i = 0; i < t.size(); i++) { if (t[i] == '\r') { if (i + 1 < t.size() && t[i + 1] == '\n') i++; o += '\n'; } else o += t[i]; } return o; }
static std::string dots(std::string t) { // a line with single dot may be replaced by space
    std::string o, l; auto put = [&] { o += l == "." ? " " : l; o += '\n'; l.clear(); }; for (char c : t) if (c == '\n') put(); else l += c; if (!l.empty()) put(); return o; }
static std::string makeText() {
    static const char *parts[] = {"Subject: test", "\r\n", "\n", ".", "\r", "word", " ", "..", "\r\n.\r\n", "\n.\n", "a", "\r\n"}; int n = sim::param("parts", 0, 12); std::string s;
    for (int i = 0; i < n; i++) { int k = sim::param("part", 0, 11); sim::Quiet q; s += parts[k]; } return s;
}
struct Wrong : std::exception {};
// the server; keeps accepted mails. Refuses or leaves when told.
struct Server {
    std::vector<Mail> box; int refuseAt, dropAt, cutAt; int cmd = 0; std::vector<std::string> reasons; bool dropped = false, faulty, slow; std::string err; bool quit = false; int refused = 0;
    void run(PNetworkStream s) {
        std::string in; size_t p = 0; bool eof = false;
        auto get = [&]() { if (p == in.size() && !eof) { byte b[50]; natural g = s->read(b, sizeof b); sim::Quiet q; if (g == 0) eof = true; else in.assign((char *)b, g), p = 0; } return p < in.size() ? (int)(unsigned char)in[p++] : -1; };
        auto line = [&](std::string &l) { l.clear(); for (;;) { int c = get(); if (c < 0) return false; l += (char)c; if (l.size() >= 2 && l.compare(l.size() - 2, 2, "\r\n") == 0) { l.resize(l.size() - 2); return true; } } };
        auto say = [&](std::string r) { { sim::Quiet q; r += "\r\n"; sim::event("S: %s", r.c_str()); } bool cut = dropAt == cmd; if (cut) { sim::Quiet q; r.resize(std::min((size_t)cutAt, r.size() - 1)); dropped = true; }
            for (size_t o = 0; o < r.size();) { size_t m = slow ? std::min((size_t)sim::param("piece", 1, 20), r.size() - o) : r.size() - o; s->writeAll(r.data() + o, m); o += m; if (slow && sim::chance("pause", 1, 4)) sim::sleep_us(sim::param("pauseus", 0, 3000)); }
            if (cut) throw Wrong(); };
        auto reply = [&](const char *ok, const char *no) { cmd++; if (cmd - 1 == refuseAt) { refused++; cmd--; say(no); cmd++; return false; } cmd--; say(ok); cmd++; return true; };
        Mail m; bool helo = false, from = false; std::string l;
        if (!reply("220 mx ready", "554 no service")) return;
        while (line(l)) {
            { sim::Quiet q; sim::event("C: %s", l.c_str()); std::transform(l.begin(), l.begin() + std::min(l.size(), (size_t)10), l.begin(), [](char c) { return (char)tolower(c); }); }
            if (l.compare(0, 5, "helo ") == 0) helo = reply("250 hello", "550 do not know you");
            else if (l.compare(0, 11, "mail from: ") == 0) { SIM_CHECK(helo && !from, "protocol", "unexpected %s", l.c_str()); if (reply("250 sender ok", "550 sender refused")) { sim::Quiet q; from = true; m = Mail(); m.from = l.substr(11); } }
            else if (l.compare(0, 9, "rcpt to: ") == 0) { SIM_CHECK(from, "protocol", "unexpected %s", l.c_str()); if (reply("250 receiver ok", "550 no such user here")) { sim::Quiet q; m.to.push_back(l.substr(9)); } }
            else if (l == "data") {
                SIM_CHECK(from && !m.to.empty(), "protocol", "unexpected data");
                if (!reply("354 go on", "451 no space")) continue;
                std::string d; for (;;) { if (!line(d)) return; sim::Quiet q; if (d == ".") break; SIM_CHECK(d.find_first_of("\r\n") == std::string::npos, "protocol", "bare CR or LF in the message"); if (d[0] == '.') d.erase(0, 1); m.text += d + "\n"; }
                { sim::Quiet q; from = false; if (cmd != refuseAt) box.push_back(m); }
                reply("250 message accepted", "550 looks like spam");
            } else if (l == "rset") { { sim::Quiet q; from = false; m = Mail(); } reply("250 reset", "250 reset"); }
            else SIM_CHECK(false, "protocol", "server received line '%s'", l.c_str());
        }
    }
};
static bool same(const Mail &a, const Mail &b) { return a.from == b.from && a.to == b.to && a.text == b.text; }
SCENARIO(mail_session, "C28", 1) {
    bool faulty = sim::chance("faulty", 1, 4); if (faulty) sim::enableFaults("io_eintr,net_short,net_rst"); else sim::enableFaults("io_eintr,net_short,poll_eintr");
    sim::setStepLimit(6000000); Fds fds;
    static const int lat[][2] = {{0, 0}, {10, 50}, {100, 3000}}; int k = sim::param("lat", 0, 2); sim::netLatency(lat[k][0], lat[k][1]); static const int buf[] = {65536, 256, 16}; sim::netBuffer(buf[sim::param("nbuf", 0, 2)]);
    Server sv; sv.faulty = faulty; sv.slow = sim::coin("slow"); sv.refuseAt = sim::chance("refuse", 1, 2) ? sim::param("refuseat", 0, 10) : -1; sv.dropAt = sim::chance("drop", 1, 3) ? sim::param("dropat", 0, 12) : -1; sv.cutAt = sim::param("cutat", 0, 10);
    int n = sim::param("mails", 1, 3); std::vector<Mail> ms; for (int i = 0; i < n; i++) { Mail m; std::string t = makeText(); int r = sim::param("receivers", 1, 3); sim::Quiet q; m.from = "me@" + std::to_string(i); m.text = t; for (int j = 0; j < r; j++) m.to.push_back("you" + std::to_string(j) + "@" + std::to_string(i)); ms.push_back(m); }
    std::vector<int> res(n, 0); // 0 not tried, 1 sent, 2 failed
    {
        PNetworkStreamSource ls = svc().createStreamSource(svc().createAddr(ConstStrA("0"), 25), StreamOpenMode::passive, 1, naturalNull, naturalNull);
        Crew c;
        c.go([&] {
            PNetworkStream s;
            try { s = ls->getNext(); } catch (const Exception &) { SIM_CHECK(faulty, "spurious-error", "accept failed"); return; }
            try { sv.run(s); } catch (const Wrong &) {} catch (const Exception &) { SIM_CHECK(faulty || sv.dropped, "spurious-error", "server failed on a healthy connection"); }
        });
        bool up = false;
        try {
            SendMailConnection con(ConstStrA("server"), 25, ConstStrA("client"), naturalNull); up = true;
            SIM_CHECK(sv.refuseAt != 0 && sv.refuseAt != 1, "refusal-ignored", "connection was opened though server refused it");
            for (int i = 0; i < n; i++) {
                const Mail &m = ms[i]; int how = sim::param("how", 0, 2); int before = sv.refused; bool dead = false;
                try {
                    if (how == 0 && m.to.size() == 1) SendMail::send(con, cs(m.from), cs(m.to[0]), cs(m.text));
                    else {
                        SendMail sm(cs(m.from)); for (auto &t : m.to) sm.addReceiver(cs(t));
                        { SeqFileOutput o = sm.openMessage(true); if (how == 2) { size_t h = m.text.size() / 2; o.blockWrite(m.text.data(), h, true); SeqFileOutput o2 = sm.openMessage(false); o2.blockWrite(m.text.data() + h, m.text.size() - h, true); } else o.blockWrite(m.text.data(), m.text.size(), true); }
                        int tries = 0;
                        for (;;) try { sm.send(con); break; } catch (const SendMailError &e) { if (tries++ || sv.dropped || !sim::coin("retry")) throw; SIM_CHECK(faulty || sv.refused == before + 1, "spurious-error", "sending failed: %s", e.getMessage().getUtf8().data()); before++; sim::probe("retried"); }
                        bool empty = false; try { sm.send(con); } catch (const SendMailError &) { empty = true; } SIM_CHECK(empty, "not-reset", "message without receivers was sent");
                    }
                    res[i] = 1; sim::probe("sent");
                } catch (const SendMailError &e) { res[i] = 2; sim::Quiet q; sim::event("failed: %s", e.getMessage().getUtf8().data()); dead = sv.dropped; SIM_CHECK(faulty || sv.dropped || sv.refused == before + 1, "spurious-error", "sending failed: %s", e.getMessage().getUtf8().data()); sim::probe("failed"); }
                if (dead) break;
            }
        } catch (const SendMailError &e) { SIM_CHECK(!up, "spurious-error", "closing failed"); SIM_CHECK(faulty || sv.dropped || sv.refused, "spurious-error", "connecting failed: %s", e.getMessage().getUtf8().data()); }
        catch (const Exception &e) { SIM_CHECK(false, "wrong-exception", "failure is reported by an exception of other type: %s", e.getMessage().getUtf8().data()); }
    }
    sim::Quiet q; size_t b = 0;
    for (int i = 0; i < n; i++) {
        Mail e = ms[i]; e.text = dots(lines(e.text) + "\n"); int got = 0;
        while (b < sv.box.size() && sv.box[b].from == e.from) { Mail g = sv.box[b]; g.text = dots(g.text); SIM_CHECK(g.to == e.to, "message", "message has other receivers"); SIM_CHECK(g.text == e.text, "message", "message was received as '%s' instead of '%s'", g.text.c_str(), e.text.c_str()); b++; got++; }
        if (res[i] == 1) SIM_CHECK(got == 1, "message-lost", "message was accepted %d times", got);
        if (res[i] == 0) SIM_CHECK(got == 0, "message-extra", "message which was not sent was accepted");
        if (res[i] == 2) { SIM_CHECK(got <= (faulty || sv.dropped ? 1 : 0), "message-extra", "refused message was accepted"); }
    }
    SIM_CHECK(b == sv.box.size(), "message-extra", "server accepted %d messages more", (int)(sv.box.size() - b));
    fds.check("session closed");
}
// nobody listens, nobody answers
SCENARIO(mail_connect, "C28", 0.2) {
    Fds fds; int kind = sim::param("kind", 0, 1); bool failed = false; uint64_t t0 = sim::now_us();
    {
        PNetworkStreamSource ls; Crew c; if (kind == 1) { ls = svc().createStreamSource(svc().createAddr(ConstStrA("0"), 25), StreamOpenMode::passive, 1, naturalNull, naturalNull); }
        int ms = sim::param("ms", 1, 30) * 100;
        try { SendMailConnection con(ConstStrA("server"), 25, ConstStrA("client"), ms); } catch (const SendMailError &) { failed = true; }
        sim::Quiet q; if (kind == 1) SIM_CHECK(sim::now_us() - t0 >= (uint64_t)ms * 1000, "early-timeout", "silent server was left after %d us of %d ms", (int)(sim::now_us() - t0), ms);
    }
    SIM_CHECK(failed, "failure-lost", "connection to nobody was opened"); fds.check("connection failed");
}
