// C08: descriptors under failing system calls.
#include "common.hpp"
#include <signal.h>

namespace {
struct Sock {
	std::unique_ptr<crab::TCPSocket> s;
	int notices = 0;
	bool used = false;
	void make() {
		s.reset(new crab::TCPSocket([this] { handler(); }));
	}
	void handler() {
		if (!s->is_open()) {
			notices++;
			return;
		}
		u8 b[1000];
		while (size_t n = s->read_some(b, sizeof b))
			s->write_some(b, n);
	}
};
struct World {
	typedef uint16_t u16;
	std::unique_ptr<crab::RunLoop> rl;
	std::vector<std::unique_ptr<Sock>> ss;
	std::vector<std::unique_ptr<crab::TCPAcceptor>> accs;
	std::vector<int> ports;
	std::vector<std::unique_ptr<crab::UDPReceiver>> ur;
	std::vector<std::unique_ptr<crab::UDPTransmitter>> ut;
	std::unique_ptr<crab::Signal> sig;
	std::vector<RawPtr> raws;
	int next_port = 5000;
	u64 threw = 0;

	template<class F>
	bool attempt(const char *what, F f) {
		int before = open_fd_count();
		try {
			f();
			return true;
		} catch (const std::exception &) {
			threw++;
			ev("threw");
			note("%s threw", what);
			SIM_CHECK(open_fd_count() == before, "leak-on-throw", "%s threw and %d descriptors were left behind", what, open_fd_count() - before);
			return false;
		}
	}
	void on_acc(size_t i) {
		if (i >= accs.size() || !accs[i])
			return;
		int quota = 50;
		while (quota-- && accs[i]->can_accept()) {
			ss.emplace_back(new Sock);
			ss.back()->make();
			ss.back()->used = true;
			crab::Address a;
			ss.back()->s->accept(*accs[i], &a);
			SIM_CHECK(ss.back()->s->is_open(), "accept-closed", "accept() left the socket closed");
		}
	}
	void op() {
		switch (weighted({4, 6, 3, 3, 4, 2, 2, 2, 2, 3, 1})) {
		case 0: {
			size_t i = accs.size();
			int port = choose(6) && !ports.empty() ? next_port++ : ports.empty() ? next_port++ : ports[0];  // sometimes a busy port
			crab::TCPAcceptor::Settings st;
			st.reuse_addr = choose(2);
			st.reuse_port = choose(4) == 0;
			st.tcp_delay = choose(2);
			if (choose(3) == 0)
				st.sndbuf_size = st.rcvbuf_size = 5000;
			attempt("TCPAcceptor", [&] {
				std::unique_ptr<crab::TCPAcceptor> a(new crab::TCPAcceptor(addr(port), [this, i] { on_acc(i); }, st));
				accs.push_back(std::move(a));
				ports.push_back(port);
			});
			break;
		}
		case 1: {
			if (ss.empty() || choose(2)) {
				ss.emplace_back(new Sock);
				ss.back()->make();
			}
			Sock &s = *ss[choose(u32(ss.size()))];
			int port = !ports.empty() && choose(4) ? ports[choose(u32(ports.size()))] : 9999;
			bool closed_first = choose(2);
			if (closed_first)
				s.s->close();
			int before = open_fd_count();
			crab::TCPSocket::Settings st;
			st.tcp_delay = choose(2);
			if (choose(3) == 0)
				st.sndbuf_size = st.rcvbuf_size = 5000;
			bool r = s.s->connect(addr(port), st);
			s.used = true;
			SIM_CHECK(r == s.s->is_open(), "is_open", "connect() returned %d, is_open() is %d", int(r), int(s.s->is_open()));
			SIM_CHECK(closed_first ? open_fd_count() == before + (r ? 1 : 0) : open_fd_count() <= before + (r ? 1 : 0), "leak-on-connect", "connect() returned %d and the number of descriptors went from %d to %d", int(r), before, open_fd_count());
			break;
		}
		case 2:
			if (!ss.empty()) {
				Sock &s = *ss[choose(u32(ss.size()))];
				s.s->close(choose(2));
				if (choose(2))
					s.s->close(choose(2));
			}
			break;
		case 3:
			if (!ss.empty()) {
				size_t i = choose(u32(ss.size()));
				ss.erase(ss.begin() + long(i));
			}
			break;
		case 4:
			if (!ports.empty()) {
				RawPtr r = raw_connect(ports[choose(u32(ports.size()))], range(0, 3) * MS);
				raws.push_back(r);
				r->on_event = [r] {
					if (!r->connected || r->sent)
						return;
					r->send("hello");
					if (choose(3) == 0)
						r->reset();
				};
			}
			break;
		case 5:
			attempt("UDPReceiver", [&] {
				crab::UDPReceiver::Settings st;
				if (choose(2))
					st.sndbuf_size = st.rcvbuf_size = 5000;
				bool mc = choose(2);
				ur.emplace_back(new crab::UDPReceiver(mc ? crab::Address("239.1.1.1", u16(next_port++)) : addr(next_port++), [] {}, st));
			});
			break;
		case 6:
			attempt("UDPTransmitter", [&] {
				bool mc = choose(2);
				ut.emplace_back(new crab::UDPTransmitter(mc ? crab::Address("239.1.1.1", 4444) : addr(4444), [] {}));
				ut.back()->write_datagram((const u8 *)"x", 1);
			});
			break;
		case 7:
			if (!sig)
				attempt("Signal", [&] { sig.reset(new crab::Signal([] {}, choose(2) ? std::vector<int>{SIGUSR1} : std::vector<int>{})); });
			else
				sig.reset();
			break;
		case 8: {  // a second loop in one thread is refused
			crab::RunLoop *cur = crab::RunLoop::current();
			bool ok = attempt("second RunLoop", [&] { crab::RunLoop second; });
			SIM_CHECK(!ok, "two-loops", "two RunLoops in one thread");
			SIM_CHECK(crab::RunLoop::current() == cur, "current", "RunLoop::current() changed");
			break;
		}
		case 9:
			switch (choose(3)) {
			case 0:
				if (!accs.empty()) {
					size_t i = choose(u32(accs.size()));
					accs[i].reset();
				}
				break;
			case 1:
				if (!ur.empty())
					ur.erase(ur.begin() + choose(u32(ur.size())));
				break;
			case 2:
				if (!ut.empty())
					ut.erase(ut.begin() + choose(u32(ut.size())));
				break;
			}
			break;
		case 10: {
			cfg.fd_limit = u32(open_fd_count()) + choose(3);
			after(range(1, 50) * MS, [] { cfg.fd_limit = 1u << 30; });
			break;
		}
		}
	}
};
}  // namespace

SCENARIO(fds) {
	random_net_config();
	cfg.interleave = 0;
	swarm({F_CONNECT_REFUSED, F_CONNECT_TIMEOUT, F_CONNECT_FAIL_NOW, F_CONNECT_IMMEDIATE, F_ACCEPT_LIMIT, F_ACCEPT_ABORT, F_ACCEPT_ODD, F_EPOLL_REORDER, F_SHORT_READ});
	World w;
	int style = int(choose(3));
	if (style == 0)
		fail_kth_syscall(range(0, 60));
	else if (style == 1)
		set_fault(F_SYSCALL_FAIL, u32(range(5, 150)));
	for (int i = 0; !w.rl; i++) {
		if (i == 20) {
			stop_faults();
			fail_kth_syscall(-1);
		}
		w.attempt("RunLoop", [&] { w.rl.reset(new crab::RunLoop); });
		if (!w.rl)
			SIM_CHECK(crab::RunLoop::current() == nullptr, "current", "a RunLoop that failed to construct is the current loop");
	}
	int n = int(size_log(2, 40));
	for (int i = 0; i < n; i++) {
		w.op();
		if (choose(3) == 0)
			run_for(*w.rl, range(0, 10) * MS);
	}
	run_for(*w.rl, range(0, 100) * MS);
	stop_faults();
	fail_kth_syscall(-1);
	cfg.fd_limit = 1u << 30;
	if (w.threw || fault_count(F_SYSCALL_FAIL) > 0)
		nontrivial();
	// the loop still works
	size_t i = w.accs.size();
	int port = 20000;
	w.accs.emplace_back(new crab::TCPAcceptor(addr(port), [&w, i] { w.on_acc(i); }));
	RawPtr r = raw_connect(port);
	r->on_event = [r] {
		if (r->connected && !r->sent)
			r->send("ping!");
	};
	run_for(*w.rl, 3 * SEC);
	SIM_CHECK(r->in == "ping!", "loop-broken", "a new connection after the failures got \"%s\" instead of an echo", r->in.c_str());
	drop_events();
	// everything is destroyed, in some order
	int order = int(choose(4));
	if (order & 1)
		w.ss.clear(), w.accs.clear();
	if (order & 2)
		w.ut.clear(), w.ur.clear();
	w.accs.clear();
	w.ss.clear();
	w.ur.clear();
	w.ut.clear();
	w.sig.reset();
	SIM_CHECK(open_fd_count() == 2, "leak", "%d descriptors are open besides the loop's two when every other object is gone", open_fd_count() - 2);
	w.rl.reset();
	SIM_CHECK(open_fd_count() == 0, "leak", "%d descriptors are left when every object is gone", open_fd_count());
	SIM_CHECK(crab::RunLoop::current() == nullptr, "current", "destroyed loop is still the current one");
}
