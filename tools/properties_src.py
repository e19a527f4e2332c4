p("P01", "RTMP input is reassembled exactly, however it is cut up",
  "Every message a publisher sends over RTMP reaches the subscribers of its stream exactly once, with its type, timestamp and payload intact, in the order sent. This holds for every legal way of chunking the messages (chunk size, header compression, interleaved chunk streams, extended timestamps, aggregate messages) and for every way TCP cuts the byte stream into reads.",
  ["inputs", "schedules"], "all legal chunkings of short message sequences within bounds, and all placements of read boundaries up to a bounded number of cuts",
  "The number of chunkings times read boundaries is combinatorial, and no existing test opens an RTMP connection at all.",
  [R+"ngx_rtmp_handler.c", R+"ngx_rtmp_receive.c", R+"ngx_rtmp_live_module.c"],
  [("chunk parser state per chunk stream", R+"ngx_rtmp_handler.c ngx_rtmp_recv"), ("aggregate message splitting", R+"ngx_rtmp_receive.c"), ("chunk size change", R+"ngx_rtmp_handler.c ngx_rtmp_set_chunk_size")])
p("P02", "RTMP output decodes to whole messages under any socket back-pressure",
  "The bytes sent to an RTMP peer always form a valid chunk stream whose decoded messages are exactly the messages the server decided to send, whole, in order and with correct timestamps. This holds for every pattern of short writes and blocked sockets and every configured chunk size.",
  ["schedules", "configurations"], "all patterns of short writes and write-blocks within bounds, chunk sizes and timestamps around the encoding boundaries",
  "Back-pressure patterns are chosen by the kernel and the peer; a test sees one of them.",
  [R+"ngx_rtmp_handler.c", R+"ngx_rtmp_shared_module.c"],
  [("out ring and partial send position", R+"ngx_rtmp_handler.c ngx_rtmp_send"), ("chunk header preparation", R+"ngx_rtmp_shared_module.c")])
p("P04", "A joining RTMP player gets the right headers and frames for its configuration",
  "A player that joins a live stream at any moment gets metadata and the matching codec header before the first frame that needs it, then the published frames once each, in publishing order and with their published timestamps, and video that starts at a key frame when the application waits for key frames. Without a frame cache it gets exactly the frames published after the moment its configuration lets it start; with a frame cache it also gets the cached group of pictures, and no inter frame arrives without the frame before it.",
  ["histories", "configurations"], "all publishing histories up to a bounded length over key, inter, audio, header and metadata events, all join points, eight start-up configurations",
  "What a player must get depends on the whole history before it joined and on configuration; a test would sample a few of them, and the existing ones have no player.",
  [R+"ngx_rtmp_live_module.c", R+"ngx_rtmp_gop_module.c", R+"ngx_rtmp_codec_module.c"],
  [("per-player start state and header versions", R+"ngx_rtmp_live_module.c ngx_rtmp_live_av"), ("group of pictures cache and per-player position", R+"ngx_rtmp_gop_module.c"), ("header and metadata capture", R+"ngx_rtmp_codec_module.c")])
p("P05", "One publisher per name and priority; players always get the best one present",
  "A second publisher of the same stream and priority is refused with BadName, never reaches players, and the name is free again as soon as the holder leaves in any way. Players get frames only from the accepted publisher with the highest priority that is present; when that changes they stay connected and restart with the new publisher's metadata, codec headers and key frame, and the end of stream is signalled, and players closed where idle streams are off, only when the last publisher leaves.",
  ["histories", "configurations"], "all histories of publish, leave (delete stream, FIN, reset), frames and player joins up to a bounded length over two publishers of one priority and one of a higher priority",
  "Handover bugs need a particular order of joins, leaves and frames of three publishers and a player; no test connects two peers to a stream.",
  [R+"ngx_rtmp_live_module.c", R+"ngx_rtmp_gop_module.c", R+"ngx_live.c"],
  [("priority map of publishers", R+"ngx_rtmp_live_module.c ngx_rtmp_live_join"), ("stream start and stop for players", R+"ngx_rtmp_live_module.c ngx_rtmp_live_set_status"), ("cache position when the source changes", R+"ngx_rtmp_gop_module.c ngx_rtmp_gop_send")])
p("P06", "Nothing an RTMP peer sends can crash, hang or corrupt the server",
  "Whatever bytes a peer sends in an RTMP session (truncated, malformed, oversized or unexpected messages, commands in any order, at any point of the session), the server does not crash, access memory out of bounds or after it was freed, or spin. The connection of that peer goes away when the peer closes it, a chunk stream number or message length beyond the configured maximum closes it, and every other session keeps getting its frames unchanged.",
  ["inputs", "histories"], "all sequences of 3 (4) ordinary steps from each session state, each of about 150 malformed messages in each of 7 session states followed by every ordinary step, every byte of a legal session changed or missing; plain application and one with every output module on",
  "Memory safety for every peer input is a statement about all inputs; the tests send none to the RTMP port.",
  [R+"ngx_rtmp_handler.c", R+"ngx_rtmp_amf.c", R+"ngx_rtmp_receive.c", R+"ngx_rtmp_cmd_module.c", R+"ngx_rtmp_codec_module.c"],
  [("AMF reader bounds", R+"ngx_rtmp_amf.c ngx_rtmp_amf_read"), ("message dispatch and session state checks", R+"ngx_rtmp_handler.c ngx_rtmp_receive_message"), ("codec header parsers", R+"ngx_rtmp_codec_module.c")])
p("P08", "A slow player loses whole messages by a fixed rule; nobody else notices",
  "For a player that does not read fast enough the server holds at most the configured queue: audio and codec headers are accepted until the queue is full, key frames until three quarters, inter frames until half of it; what is accepted arrives whole and in order. After more than the sync time of lost audio or video that medium starts again with its codec header, and with a key frame if the application waits for key frames; a player that takes nothing at all for the send timeout is disconnected. The publisher and all other players are not affected.",
  ["schedules", "histories"], "every position of the ring of waiting messages, every backlog up to the queue length, every following sequence of 3 (5) frames and reads, four output configurations; long stalls of every length; waiting times around the timeout",
  "Whether a message is dropped depends on queue position, backlog, merge size and the bytes a blocked socket took; tests never block a socket.",
  [R+"ngx_rtmp_handler.c", R+"ngx_rtmp_live_module.c", R+"ngx_rtmp_shared_module.c"],
  [("drop rule by priority", R+"ngx_rtmp_handler.c ngx_rtmp_send_message"), ("resynchronisation after drops", R+"ngx_rtmp_live_module.c ngx_rtmp_live_av"), ("ring of waiting messages and merged writes", R+"ngx_rtmp_shared_module.c ngx_rtmp_prepare_merge_frame")])
T="modules/nginx-toolkit-module/"
p("P21", "The ordered map behaves as a sorted map for every sequence of operations",
  "After any sequence of insertions, replacing insertions and deletions, looking up a key gives the node inserted last under it (or, without replacing, the first one) and nothing for absent keys. Walking forward visits every present key once, in ascending numeric order for integer keys, and walking backward is the exact reverse. This holds for every key, including extreme, negative and hash-colliding ones.",
  ["programs", "inputs"], "every sequence of 6 (7) operations over 5 keys and every insertion order of 7 (8) keys with every subset deleted, for three kinds of keys",
  "The tests insert a handful of keys in one order; tree shape and hash collisions depend on the whole history.",
  [T+"ngx_map.c"], [("lookup, insertion, iteration over the tree", T+"ngx_map.c ngx_map_insert")])
p("P22", "Pooled timers, buffers and pools have one owner at a time",
  "A worker timer that was added fires exactly once, not before its time, with its own data, unless it is deleted first, and at most the configured number is pending. A chain buffer, tracked pool or owned timer is handed to one user at a time with the size asked for, is reused after it was returned, and returning it twice (or cancelling somebody else's timer) changes nothing for anybody else. The state report counts and lists exactly what is in use.",
  ["programs", "histories"], "every sequence of 5-9 operations on each pool, handlers that add and delete timers included",
  "Aliasing appears only after particular sequences of get, return and reuse.",
  [T+"ngx_event_timer_module.c", T+"ngx_rbuf.c", T+"ngx_poold.c", T+"ngx_timerd.c"],
  [("worker timer slots", T+"ngx_event_timer_module.c ngx_event_timer_add_timer"), ("chain buffer free lists", T+"ngx_rbuf.c ngx_get_chainbuf_debug"), ("owner footprint of timers", T+"ngx_timerd.c ngx_timerd_wrap")])
p("P09", "AMF values are read into the right variables and written back exactly",
  "Reading an AMF0 message puts every value the reader asks for into its variable (numbers and booleans exactly, strings cut to the variable's size and terminated, object and array members by name or position, whatever comes in between) and leaves every other variable alone, wherever the receive buffers end. A message that ends early is an error or leaves the missing values untouched, and nothing outside the variables is ever written. Writing a list of values yields exactly its AMF0 encoding for every buffer size.",
  ["inputs"], "all documents of bounded size over all supported kinds of values, nested ones included, at every pair of buffer ends and every length; all small lists written into buffers of 8 sizes",
  "Where a value is split over receive buffers depends on the peer's chunking; tests use none of this code with split buffers.",
  [R+"ngx_rtmp_amf.c"], [("reading over buffer chains", R+"ngx_rtmp_amf.c ngx_rtmp_amf_get"), ("writing into buffer chains", R+"ngx_rtmp_amf.c ngx_rtmp_amf_put")])
MP="modules/nginx-multiport-module/"
p("P25", "URLs, socket addresses, worker ports and stream arguments are split exactly",
  "A URL scheme://[user@]host[:port][/path[?args][#fragment]] is split into exactly its parts, whatever delimiters later parts contain, and the parts of any accepted text make up that text again. A port or an IPv4, bracketed IPv6 or unix address text gives exactly the number or socket address it denotes, or is refused. Worker n gets port number base+n (or path.n), and an argument of a stream name is found by its whole name, ignoring case, with its exact value.",
  ["inputs"], "all texts up to 8-11 characters over the delimiters, all combinations of typical parts, all ports, all worker slots",
  "Parsers are total functions over text; the tests look at a few well-formed samples.",
  [T+"ngx_toolkit_misc.c", MP+"ngx_multiport_misc.c", R+"ngx_rtmp_core_module.c"],
  [("URL splitting", T+"ngx_toolkit_misc.c ngx_parse_request_url"), ("address texts", T+"ngx_toolkit_misc.c ngx_sock_pton"), ("per-worker ports", MP+"ngx_multiport_misc.c ngx_multiport_get_port"), ("stream arguments", R+"ngx_rtmp_core_module.c ngx_rtmp_arg")])
p("P15", "An HTTP-FLV response is the live stream as a valid FLV file",
  "An HTTP request for a live stream is answered with status 200 and one FLV file: a file header with the configured flags, then whole tags with correct sizes, previous-tag sizes and 32 bit timestamps, carrying exactly the media an RTMP player joining at that moment would get, for every pattern of writes the socket accepts. The request names the stream and application it is given; a malformed target gets 400, an unknown application or (with idle_streams off) an unpublished stream 404. Players that leave, block or lose their publisher do not disturb others.",
  ["schedules", "histories", "configurations"], "publishing histories of 4 (6) events with a join before every event in 8 applications, two HTTP versions; blocking positions throughout the response; 6 (7) comings and goings",
  "What a response contains depends on the join moment and on how the socket accepts bytes; no test requests a stream.",
  [R+"http/ngx_http_flv_live_module.c", R+"http/ngx_http_set_header.c", R+"ngx_rtmp_shared_module.c", R+"ngx_rtmp_init.c"],
  [("FLV tags around shared frames", R+"http/ngx_http_flv_live_module.c ngx_http_flv_live_prepare_out_chain"), ("write handler and partial output", R+"http/ngx_http_flv_live_module.c ngx_http_flv_live_write_handler"), ("target parsing", R+"http/ngx_http_flv_live_module.c ngx_http_flv_live_parse_url")])
p("P12", "A notification server decides on sessions and hears of each start and end once",
  "With on_publish or on_play a session gets no status, no response and no frame (and none of a publisher's frames reach anybody) before the server answered; a 2xx answer admits it, any other answer, a broken one, a closed connection or none within the timeout refuses it (an HTTP player with 403), except that ignore_invalid_notify admits it when there was no answer at all. The server is sent exactly one start per session (on_stream: per stream, from its first session to its last; on_meta: per codec header, to every configured server), updates at the configured interval after the previous answer, and exactly one done when it ends, in whatever order answers and departures happen. Every request is one well-formed HTTP request whose domain, app, name and clientid parameters are those of the session, whatever characters a client put into them.",
  ["schedules", "histories", "inputs"], "11 answers and refused connections at each stage x 4 things that happen first x endings, for publishers, RTMP and HTTP-FLV players; 5 (7) joins and leaves of a stream; 4 (5) codec headers and frames in 5 configurations; 17 names",
  "Which of the answer, the timeout, the client's departure and its media comes first cannot be scripted against a real server; the tests contain no notification.",
  [R+"ngx_rtmp_notify_module.c", R+"ngx_netcall.c", "modules/nginx-client-module/ngx_http_client.c", "modules/nginx-client-module/ngx_client.c"],
  [("gate and lifecycle of a session", R+"ngx_rtmp_notify_module.c ngx_rtmp_notify_pnotify_start_handle"), ("request URL", R+"ngx_rtmp_notify_module.c ngx_rtmp_notify_common_url"), ("timeouts and detached requests", R+"ngx_netcall.c ngx_netcall_timeout")])

p("P10", "A relayed stream arrives unchanged and a lost link is restored while needed",
  "When on_push or on_pull answers with a Location, the server connects there and the stream arrives at the other end with every frame published while the link is up, once, in order, unchanged and after its codec headers, over RTMP or HTTP-FLV however the bytes are cut. A failed attempt is repeated after failed_reconnect, doubled each time up to relay_reconnect, one not successful within relay_reconnect at once, a lost working link at once; 200 means no relay, 4xx and 5xx end the local sessions, nothing else disconnects them. There is one link per stream and target, it ends with the last session that needs it and nothing is attempted after that; every target asked hears of the end.",
  ["schedules", "histories", "inputs"], "all sequences of 3 (4) outcomes out of 18 of a relay attempt, push and pull; all 7 (8)-step histories of players, publisher and link; pairs of outcomes for two targets; every cut of 4 HTTP-FLV streams; 16 broken answers",
  "Which link breaks when, and what was already sent by then, is decided by the network; the tests relay nothing.",
  [R+"ngx_live_relay.c", R+"ngx_live_relay_rtmp.c", R+"ngx_live_relay_httpflv.c", R+"ngx_rtmp_notify_module.c", R+"ngx_rtmp_init.c"],
  [("reconnect rules", R+"ngx_rtmp_notify_module.c ngx_rtmp_notify_relay_start"), ("end of a relay", R+"ngx_live_relay.c ngx_live_relay_close_stream"), ("FLV parser", R+"ngx_live_relay_httpflv.c ngx_live_relay_httpflv_parse")])

p("P20", "A recording is a valid FLV file of exactly what it was configured to hold",
  "Every recorder of a stream writes, below record_path and under the stream's name, an FLV file of whole tags holding exactly the published frames its directives select (all, audio, video, keyframes, manual, unique, append, max size or frames, interval), once, in order, with times relative to the start and each frame after the codec header it was published under, and the publisher is told of each start, stop and failure if asked for. When a disk operation fails the file keeps its whole tags and no live player or publisher notices; appending to a recording cut at any byte keeps every whole tag and continues after the last. A publisher that is refused never creates, opens or changes a recording.",
  ["histories", "faults", "crash points", "inputs"], "15 recorders x all sequences of 4 (6) of 10 events; 5 (7)-step histories of record requests; a failure or short write at every file operation; every cut of a recording x 6 tails; 5 (7)-step histories of accepted and refused publishers; all names up to 4 characters over 8",
  "Codec headers, rotations, crashes and second publishers meet in any order, and disks fail at any write; the tests record nothing.",
  [R+"ngx_rtmp_record_module.c", R+"ngx_rtmp_control_module.c"],
  [("which frames go where", R+"ngx_rtmp_record_module.c ngx_rtmp_record_node_av"), ("appending", R+"ngx_rtmp_record_module.c ngx_rtmp_record_append_offset"), ("failed writes", R+"ngx_rtmp_record_module.c ngx_rtmp_record_write_failed"), ("who may record", R+"ngx_rtmp_record_module.c ngx_rtmp_record_accepted")])
p("P17", "HLS output holds the published stream and can be played at any moment",
  "While a stream is published its HLS playlist, read at any moment, is well formed, lists consecutive fragments that exist, are complete, and hold exactly the frames published in their spans, once, in order, with their times, start with a key frame after its parameter sets, and obey the configured lengths, naming, window, keys (decryptable with the key the playlist names), variants and discontinuities; nothing published is left out when the publisher leaves and a returning publisher continues the sequence. Failing and short disk operations, frames of any size and any media bytes neither damage what is listed nor disturb the publisher or the server. Refused publishers change nothing, names stay inside hls_path, and cleanup removes exactly the expired files.",
  ["histories", "faults", "inputs", "schedules"], "all sequences of 4 (5) of 8 events after 8 starts in 7 applications x 3 time patterns; a failure or short write at every file operation; 5 (6)-step histories of accepted and refused publishers; every frame size around packet and buffer limits x 3 chunk sizes; every cut and every byte of 10 messages; all playlists cut at every byte; all names up to 4 characters over 8",
  "What a player sees depends on when it reads; when keys, headers, rotations, disk faults and returning publishers meet cannot be scripted; the tests contain no HLS.",
  [R+"hls/ngx_rtmp_hls_module.c", R+"hls/ngx_rtmp_mpegts.c", R+"ngx_rtmp_live_module.c"],
  [("fragments", R+"hls/ngx_rtmp_hls_module.c ngx_rtmp_hls_update_fragment"), ("playlist", R+"hls/ngx_rtmp_hls_module.c ngx_rtmp_hls_write_playlist"), ("transport stream", R+"hls/ngx_rtmp_mpegts.c ngx_rtmp_mpegts_write_frame"), ("resuming", R+"hls/ngx_rtmp_hls_module.c ngx_rtmp_hls_restore_stream"), ("cleanup", R+"hls/ngx_rtmp_hls_module.c ngx_rtmp_hls_cleanup_dir")])
p("P32", "The live record index names exactly the parts of the recorded transport streams",
  "While a stream is recorded with live_record, each line of its index, read at any moment, names a byte range of an existing transport stream file that starts and ends with whole packets, decodes, and holds exactly the frames published between the start and end wall clock times it names, once, in order; parts follow each other without gap, are cut at the configured lengths, and files are rotated at multiples of live_record_interval. Everything published between start (configuration, on_record, control request) and stop is listed when the recording ends, and on_record hears of each start, rotation and end. Failing and short writes, broken media, odd stream names and refused publishers neither damage what is listed, nor disturb publisher and players, nor leave live_record_path.",
  ["histories", "faults", "inputs"], "all sequences of 4 (6) of 10 events in 3 applications x 3 kinds of stream x 2 time ranges; a failure or short write at every file operation; all 5 (7)-step histories of on_record answers and of refused publishers; every frame size around the limits; every cut and byte of 6 messages; all names up to 4 characters over 8",
  "Rotation, slicing, control requests, callbacks and disk faults meet at any moment and the index can be read at any moment; the tests record nothing.",
  [R+"ngx_live_record.c", R+"ngx_rtmp_notify_module.c", R+"ngx_rtmp_control_module.c", R+"hls/ngx_rtmp_mpegts.c"],
  [("slicing and rotation", R+"ngx_live_record.c ngx_live_record_avc"), ("index lines", R+"ngx_live_record.c ngx_live_record_write_index"), ("opening after a fault", R+"ngx_live_record.c ngx_live_record_open_file"), ("on_record gate", R+"ngx_rtmp_notify_module.c ngx_rtmp_notify_record_start")])
p("P16", "An HTTP-TS response is the live stream as a valid transport stream",
  "A client that requests a stream over HTTP-TS receives, whenever it joins and however its socket blocks, a well-formed HTTP response whose body is a valid transport stream (PAT, PMT, continuity, clock) of exactly that stream's frames: from a key frame with its current parameter sets on (or from the configured cache), in order, without loss or repetition, with their times. Players are independent of each other, survive a change of publisher and malformed media, and their connections end when they leave. Unknown applications and malformed requests are answered with an error status.",
  ["histories", "schedules", "inputs", "faults"], "all histories of 4 (5) of 7 events in 4 applications x H.264/HEVC x audio x 2 clocks with a player joining before each; 150-200 blocking positions x 4 patterns x 3 body encodings; all sequences of 6 (7) of 7 events with two players and changing publishers; every frame size around the limits; every cut and every byte of 7 messages",
  "Where a socket blocks, when a player joins relative to headers and key frames, and when publishers change cannot be sampled; the tests contain no HTTP-TS.",
  ["modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c", "modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c", "modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c"],
  [("remultiplexing", "modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c ngx_mpegts_live_h264_handler"), ("frame cache", "modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c ngx_mpegts_gop_send"), ("writing", "modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c ngx_mpegts_http_write_handler")])
p("P03", "Every client and server completes the RTMP handshake, and only valid ones do",
  "A connection that starts with version 3 is answered S0 S1 S2 according to its C1 (echo, or a valid digest for a valid digest in either scheme at any offset) whatever the segmentation and however the socket blocks, and what follows C2 is processed as RTMP; other versions, clients that leave and clients silent for the timeout are disconnected. As a client, nginx sends a valid C1 and C2 and issues connect only after a complete S2. Concurrent handshakes do not influence each other, and with proxy_protocol the connection continues only after a valid PROXY header, whose address is the one access rules judge.",
  ["inputs", "schedules"], "5 kinds of C1 x 728 offsets x bit flips; handshake plus connect cut, closed, silent or blocked at every byte; every interleaving of 7 (9) steps of three handshakes; 4 kinds of server cut at every 7-11th (3rd) byte; every byte, deletion and insertion in 5 PROXY headers",
  "Digests lie at data-dependent offsets, buffers are recycled between connections and segments end anywhere; a test has one client that sends one handshake in one piece.",
  [R+"ngx_rtmp_handshake.c", R+"ngx_rtmp_proxy_protocol.c", R+"ngx_rtmp_init.c"],
  [("digest", R+"ngx_rtmp_handshake.c ngx_rtmp_find_digest"), ("stages", R+"ngx_rtmp_handshake.c ngx_rtmp_handshake_recv"), ("buffers", R+"ngx_rtmp_handshake.c ngx_rtmp_free_handshake_buffers"), ("PROXY header", R+"ngx_rtmp_proxy_protocol.c ngx_rtmp_proxy_protocol_recv")])
p("P13", "allow, deny and max_connections decide exactly who gets in",
  "Whether a client may publish or play is what the first rule says that covers its address and operation, the rules of the application before those of its server, whichever protocol it speaks (RTMP, HTTP-FLV, HTTP-TS) and family its address has; a refused client publishes nothing, sees nothing and disturbs nobody. A connection is accepted if and only if fewer than max_connections clients are connected at that moment, whatever came and went before and however it ended.",
  ["inputs", "histories"], "all 930 lists of one and two rules x 9 addresses x publish and play over three protocols; all sequences of 6 (7) of 9 connection events against a limit of three",
  "Rules interact with each other, with inheritance and with address families; a leak of the counter shows only after particular endings. The tests have no rules and no limit.",
  [R+"ngx_rtmp_access_module.c", R+"ngx_rtmp_limit_module.c"],
  [("rules", R+"ngx_rtmp_access_module.c ngx_rtmp_access"), ("inheritance", R+"ngx_rtmp_access_module.c ngx_rtmp_access_merge_rules"), ("limit", R+"ngx_rtmp_limit_module.c ngx_rtmp_limit_connect")])
p("P11", "Several workers act as one server",
  "A player that joins any worker receives, in order, the frames of the publisher wherever that publisher is, also when players came first on several workers, when the publisher leaves and another comes to another worker, and after a worker was killed and started again (within a few reconnect periods). Every stream has at most one owner in the shared zone: what concurrent workers insert, delete and forget is equivalent to doing it one after another, entries are not lost, and the workers never wait for each other for ever.",
  ["all interleavings of operations of workers on the zone", "all histories of publishers, players and crashes on two workers"],
  "Inner relay: stream_zone in shared memory maps stream names to process slots, ngx_live_relay_inner pushes or pulls between workers over the multiport listeners.",
  "What goes wrong needs an interleaving of processes, or a particular order of arrival on different workers. The tests run one worker.",
  [MP+"ngx_stream_zone_module.c", R+"ngx_live_relay_inner.c", R+"ngx_live_relay.c"],
  [("zone", MP+"ngx_stream_zone_module.c ngx_stream_zone_insert_stream"), ("inner relay", R+"ngx_live_relay_inner.c ngx_live_relay_inner_relay"), ("publish", R+"ngx_live_relay.c ngx_live_relay_publish")])
p("P19", "DASH output holds the published stream and can be played at any moment",
  "While a stream is published its DASH manifest, read at any moment, is a well-formed document that announces exactly the tracks published, lists the last segments with their true times and lengths, and names segments and initialization segments that exist, are complete and hold exactly the frames of their span, once, in order, with decoding time, composition offset, size and key flag, cut at key frames as configured; nothing is left out when the publisher leaves. Failing and short disk operations neither damage what is listed later nor disturb the publisher or the server. Refused publishers change nothing, names stay inside dash_path, and cleanup removes exactly the expired files.",
  ["histories", "faults", "inputs"], "all sequences of 5 (6) of 8 events in 2 layouts x 4 kinds of stream, read at every file operation; a failure or short write at every file operation; 5 (7)-step histories of accepted and refused publishers; fragments of thousands of frames and frames up to 1 MB; all names up to 4 characters over 8; 21 kinds of file x 46 ages",
  "What a player sees depends on when it reads, and tracks, headers, gaps and disk faults meet in ways that cannot be scripted; the tests contain no DASH.",
  [R+"dash/ngx_rtmp_dash_module.c", R+"dash/ngx_rtmp_mp4.c"],
  [("segments", R+"dash/ngx_rtmp_dash_module.c ngx_rtmp_dash_update_fragments"), ("manifest", R+"dash/ngx_rtmp_dash_module.c ngx_rtmp_dash_write_playlist"), ("initialization segments", R+"dash/ngx_rtmp_dash_module.c ngx_rtmp_dash_write_init_segments"), ("boxes", R+"dash/ngx_rtmp_mp4.c ngx_rtmp_mp4_write_trun"), ("cleanup", R+"dash/ngx_rtmp_dash_module.c ngx_rtmp_dash_cleanup_dir")])
p("P28", "The statistics pages tell the truth",
  "After any history of sessions the XML page of rtmp_stat and the JSON page of sys_stat are well-formed documents that list exactly the streams that exist on each server, with the clients each has (RTMP, HTTP-FLV and HTTP-TS), who publishes, how long, and the right counts and totals. What they say of a published stream (codec, profile, level, picture size, sampling rate, channels) is what its last codec headers say, however these are chunked. No text a client chooses makes a page invalid; any number of requests, of any method, is answered completely and keeps no memory.",
  ["histories", "inputs"], "all sequences of 5 (6) of 9 events of sessions, both pages read after each; 2 200 AVC, HEVC and AAC headers in 3 chunkings; all texts of up to 4 characters over 12; 3 pages x 3 methods x 2 versions, slow readers, 240 requests in a row",
  "The pages are what operators and autoscalers act on; errors need particular orders of joining and leaving, unusual codec headers or hostile texts. The tests never read them.",
  [R+"ngx_rtmp_stat_module.c", R+"ngx_live_stat.c", R+"ngx_rtmp_sys_stat_module.c", R+"ngx_rtmp_codec_module.c"],
  [("XML", R+"ngx_rtmp_stat_module.c ngx_rtmp_stat_live"), ("JSON", R+"ngx_live_stat.c ngx_live_stream_stat"), ("codec headers", R+"ngx_rtmp_codec_module.c ngx_rtmp_codec_parse_avc_header")])
p("P27", "A control request does exactly what it names",
  "A request to rtmp_control acts on exactly the sessions that its srv, app, name, addr and clientid select, in any order of arguments, answers with their number, and leaves every other session of every server, application and stream untouched; a request that is no valid order changes nothing. A dropped session is closed and its place is free; a paused publisher's players receive nothing from the pause to the resume and then a stream that starts at a key frame; a manual recorder writes exactly the frames between its start and its stop. A redirected publisher or player is wholly under the new name: players receive exactly the frames of the stream they are under now, whatever the order of redirects, joins and frames.",
  ["histories", "inputs"], "32 sessions x 7 orders x 4 kinds x 3 servers x 6 applications x 5 names x 4 addresses x 4 client numbers; every sequence of 5 (6) of 9 events of pausing, 6 (7) of 6 events of recording, 5 (6) of 10 events of redirecting",
  "Operators kick clients and steer recordings through this page; a selector that matches one session too many ends someone else's broadcast. Errors need neighbours with almost equal names and particular orders. The tests never send a control request.",
  [R+"ngx_rtmp_control_module.c", R+"ngx_rtmp_record_module.c", R+"ngx_rtmp_live_module.c", R+"ngx_live.c"],
  [("selection", R+"ngx_rtmp_control_module.c ngx_rtmp_control_walk"), ("redirect", R+"ngx_rtmp_control_module.c ngx_rtmp_control_redirect_handler"), ("recorder", R+"ngx_rtmp_record_module.c ngx_rtmp_record_open")])
TS = "modules/nginx-ts-module/src/"
p("P29", "An uploaded transport stream becomes HLS and DASH of exactly its frames",
  "Whatever way the body of the request arrives, an MPEG transport stream uploaded to a ts location becomes HLS segments and DASH fragments that hold every complete frame of the stream once, in order, with its bytes, time stamps and random access flag, cut at the first random access frame after the minimum and never later than the first frame after the maximum duration (or at the size limit), across the wrap of the clock. The playlist and the manifest list the last segments with their true durations, the initialization segments describe the streams; the request is answered 204 at its end. Damaged or unfinished uploads leave the server up, no file open and the next upload unharmed; while an upload goes on nothing listed is removed, afterwards everything is.",
  ["inputs", "histories"], "150 000 (1.1 M) uploads: all sequences of 5 (6) of 7 events x 3 kinds of program x open or sized PES x wrap; frames of every size from 5 to 600 bytes in 32 packings; 1 188 AVC headers; bodies cut at every byte; every byte damaged in 12 ways; every packet lost, doubled, moved",
  "What is wrong depends on where frames end in packets, on the clock, on the order of audio and video and on how the body is cut. The repository has no test that uploads a stream.",
  [TS+"ngx_http_ts_module.c", TS+"ngx_ts_stream.c", TS+"ngx_ts_hls.c", TS+"ngx_ts_dash.c", TS+"ngx_ts_dash_mp4.c", TS+"ngx_ts_avc.c", TS+"ngx_ts_aac.c"],
  [("demultiplexer", TS+"ngx_ts_stream.c ngx_ts_read_pes"), ("HLS", TS+"ngx_ts_hls.c ngx_ts_hls_close_segment"), ("DASH", TS+"ngx_ts_dash.c ngx_ts_dash_close_segment"), ("multiplexer", TS+"ngx_ts_stream.c ngx_ts_packetize"), ("request", TS+"ngx_http_ts_module.c ngx_http_ts_read_event_handler")])
