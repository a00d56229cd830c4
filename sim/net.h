// Simulated TCP network: sockets of the code under test are connections to a passive peer that the harness
// supplies. Everything that arrives has a simulated arrival time; calls that wait skip to it.
#pragma once
#include "sim.h"
#include <string>
#include <vector>

namespace sim::net {

enum ConnectKind { ACCEPT, ACCEPT_LATER, REFUSE, REFUSE_LATER, SILENT };
enum EndKind { OPEN, FIN, RST };

struct Conn {
  int id = 0, address = 0, port = 0;
  std::string received;                 // everything the client has sent
  bool clientClosed = false, clientShut = false;
  // what the peer sends: use these from Peer::onData / onConnect
  void send(int64_t delay, std::string data); // delay: after the previous event of this connection
  void end(EndKind k, int64_t delay);         // nothing follows
  void resetSends(int after);                 // the connection breaks when the client has sent this many bytes
  // state of the simulator
  struct Event { int64_t at; std::string data; EndKind end; };
  std::vector<Event> ev; size_t next = 0, pos = 0; int64_t lastAt = 0; int sendLimit = -1;
  int64_t connectAt = -1; int connectErr = 0; bool connected = false, nonblock = false;
  int64_t rcvTimeout = 0, sndTimeout = 0; int soError = 0; int bytesIn = 0;
};

struct Peer {
  virtual ~Peer() = default;
  // Number of addresses of the name; 0 = not found, -1 = temporary failure.
  virtual int resolve(const std::string & host, int port) = 0;
  virtual ConnectKind onConnect(Conn & c, int64_t & delay) = 0;
  virtual void onData(Conn & c) = 0;
};

struct Faults { double eintr = 0, shortRecv = 0, shortSend = 0, socketFail = 0; };

void start(Peer & p);           // from the main thread of the run; single process harnesses only
Faults & faults();
int openSockets();              // sockets that are not closed
const std::vector<Conn *> & connections();
}
