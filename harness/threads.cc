// The driver with sessions side by side, each on a thread and parser states of
// its own; built with ThreadSanitizer.  Takes the same lines; "R n" performs the
// sessions read so far, each on n threads (which share its inputs), all at once,
// and answers for every session and thread with its lines in order.
#define CONCURRENT
#include "main.cc"

#include <atomic>
#include <thread>

struct Script {
  std::string first;
  std::vector<Request> calls;
  std::vector<std::unique_ptr<Input>> in;
};

int main() {
  std::string line;
  std::vector<Script> all;
  while (std::getline(std::cin, line)) {
    if (line.empty() || line[0] == 'E') continue;
    if (line[0] == 'S') {
      all.emplace_back();
      all.back().first = line;
    } else if (line[0] == 'O') {
      Request q(line);
      all.back().in.emplace_back(new Input(q.b));
      all.back().calls.push_back(std::move(q));
    } else {
      int each = atoi(line.c_str() + 1);
      std::vector<std::string> out(all.size() * each);
      std::atomic<size_t> ready(0);
      std::vector<std::thread> ts;
      for (size_t i = 0; i < out.size(); i++)
        ts.emplace_back([&, i] {
          const Script& z = all[i / each];
          std::string o = start_session(z.first) + "\n";
          ready.fetch_add(1, std::memory_order_relaxed);
          while (ready.load(std::memory_order_relaxed) < out.size()) std::this_thread::yield();
          for (size_t k = 0; k < z.calls.size(); k++) o += perform(z.calls[k], *z.in[k]) + "\n";
          out[i] = o + end_session() + "\n";
        });
      for (auto& t : ts) t.join();
      for (auto& o : out) std::cout << o;
      std::cout << std::flush;
      all.clear();
    }
  }
  return 0;
}
