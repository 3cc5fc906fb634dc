SEQ = "stateless model checking of the real code: every operation sequence up to a depth, against a reference model"
prop("C50", "grpc", "gRPC calls: each once, answered as handled; failures keep code and message",
     "A unary call reaches its handler once, with its headers and its message as it was sent, however it is compressed, and the caller gets the answer, compressed only if it said that it can read that. A call that fails, on either side, gives the caller an error: the handler's code, if it is one of the known ones, and its message, whatever is in it; each failure is counted and given to the error handler once. A request that is not exactly one message that can be read is refused and never reaches the handler, an answer likewise is an error, and no answer within the time is a timeout then. No more calls wait for an answer than the limit allows, in order, and calls that end in any way make room. A stream gives its messages in order, once, and then its end, or the failure it ended with; it counts as begun once and as succeeded or failed once, with the messages and bytes that were sent; a handler whose client has left learns it. While a stream is told to stop reading nothing is read from it, and nothing is lost by that, nor by reads that are given up. A server that is told to stop takes no new calls, finishes those under way, and has ended once the last one is; it counts its connections, in all and at the time.",
     ["inputs", "histories"], "one call, or two at once, with three sizes, three compressions, headers, and every end (8 codes with 9 messages, 5 other errors); streams of up to 3 or 4 messages that the client reads or leaves at any point; every sequence of up to 6 to 8 calls with timeouts, answers, pauses and calls given up under a limit of 1 or 2; every sequence of 6 or 7 frames (whole, joined, cut), ends, damage, stops and reads in three encodings; requests and answers of others in every combination of encodings, said and real, cut short or broken off; every sequence of 6 or 8 steps of up to 3 TCP connections with a call each, answers, clients that leave, and the shutdown",
     "The tests make one call each over a connection, with one error of three letters, and one stop of one read.",
     ["bd-grpc/src/lib.rs", "bd-grpc-codec/src/lib.rs", "bd-grpc/src/axum_helper.rs"],
     [("Client, unary_handler, server_streaming_handler", "bd-grpc/src/lib.rs"), ("ServerStreamingApi::next, StreamingApiSender", "bd-grpc/src/lib.rs"), ("Status, Code, Error", "bd-grpc/src/lib.rs")],
     SEQ, "model_checking", "hyper, h2 and axum are the real ones, over a connection in memory, or for the shutdown over the loopback network; validation (bd-pgv) needs protobuf reflection, is a stand-in, and takes every message. The time limit of a unary call covers what comes before the body, as in the code.",
     observe=["results of Client::unary, ServerStreamingApi::next", "requests at the handler", "StreamStats, error counter, error handler"])
prop("C51", "grpc", "Client streams over HTTP/2: data in order, one end each, nothing of the last one",
     "A stream of the native client reaches the server as one request with its headers. What the client sends on it gets to the server in order, and what the server sends gets to the client, each once, while the stream is open. However the stream ends or comes to nothing (the server ends it, breaks it, refuses it, is not there, or the connection is lost), the client is told exactly once, and nothing comes after that. What is sent late, after the end, goes nowhere: not into the next stream either, which begins as if there had been none. The shutdown ends it all whatever is being waited for, and sending after that fails without a panic; so does the end of all who use it.",
     ["histories"], "every sequence of 6 (thorough: 8) steps of 13 kinds: streams that are answered, refused in two ways, never answered, or find no server; data each way, ends with and without trailers, broken streams, killed connections, late data, the shutdown",
     "The one test connects to a port where there is no server.",
     ["bd-hyper-network/src/lib.rs"],
     [("HyperNetwork, Handle", "bd-hyper-network/src/lib.rs")],
     SEQ, "model_checking", "hyper and h2 are the real ones, over the loopback network; TLS (hyper-rustls) is not here, and not covered. Servers that send their headers only once they have got a message are not covered: the client sends nothing before it has the headers. The scenario lets each step settle before the next, so that what is on its way at the time of a break is not part of it.",
     observe=["StreamEvents at the client", "requests, headers and data at the server", "whether the network task has ended"])
