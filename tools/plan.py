"""Which entry points decide which property, at which tier, and what each run must have reached to count."""
# entry: (quick?, thorough?, description of the bound)
class En:
    def __init__(s, name, bound, covers=(), quick=True, thorough=True, time=None): s.name, s.bound, s.covers, s.quick, s.thorough, s.time = name, bound, tuple(covers), quick, thorough, time
ALL4 = ('good', 'bad', 'open', 'partial')
RAW_Q = [En('h_raw10', 'every byte string of 0..10 bytes', ALL4), En('h_sized8', 'every first byte, one-byte remaining length 8, every body, 2 arbitrary bytes behind it', ('good', 'bad', 'open')),
         En('h_connect14', 'CONNECT with the right name and level and every 14-byte rest, 1 arbitrary byte behind it', ('good', 'bad', 'open')),
         En('h_connect_name', 'CONNECT with any one byte replaced by any value', ('good', 'bad')),
         En('h_connect_other', 'CONNECT with every name of 0..8 bytes, every level and every 7-byte rest', ('good', 'bad'))]
RAW_T = [En('h_raw12', 'every byte string of 0..12 bytes', ALL4, quick=False), En('h_sized10', 'as h_sized8 with a body of 10 bytes', ('good', 'bad', 'open'), quick=False),
         En('h_sized12', 'as h_sized8 with a body of 12 bytes', ('good', 'bad', 'open'), quick=False), En('h_connect16', 'as h_connect14 with 16 bytes', ('good', 'bad', 'open'), quick=False, time=400), En('h_connect_other2', 'as h_connect_other with 12 bytes', ('good', 'bad'), quick=False)]
BIG = [En('h_big_publish', 'PUBLISH with topic lengths 1,127,128,255,256 and remaining lengths 120..1000, symbolic end bytes, flags and identifier', ('good', 'bad')),
       En('h_big_publish2', 'PUBLISH with remaining lengths 8192..16385', ('good',)), En('h_big_publish3', 'PUBLISH with a 65535-byte topic', ('good',)),
       En('h_big_sub', 'SUBSCRIBE with 1,2,3,40 filters of 0..300 bytes, symbolic identifier, QoS bytes and end bytes', ('good', 'bad')),
       En('h_big_unsub', 'UNSUBSCRIBE likewise', ('good', 'bad')), En('h_big_filter', 'SUBSCRIBE with 65535-byte filters', ('good',)),
       En('h_big_text', 'every kind of packet with texts of 70 and 300 bytes of 1..4-byte characters in every alignment', ('good', 'bad')),
       En('h_big_connect', 'CONNECT with every flags byte and one string of 0,2,255,256 bytes', ('good', 'bad'))]
BIG_T = [En('h_big_text2', 'as h_big_text with 65535 bytes', ('good', 'bad'), quick=False), En('h_huge_publish', 'PUBLISH with remaining lengths 2097151 and 2097152', ('good',), quick=False), En('h_big_connect2', 'CONNECT with one string of 65535 bytes', ('good',), quick=False)]
PLAN = {
 'C01': RAW_Q + BIG + RAW_T + BIG_T,
 'C02': [En('h_indep10', 'every byte string of 0..10 bytes that starts with a complete packet, decoded with and without what follows it, and every strict prefix of the packet', ('trailing',)),
         En('h_raw8', 'every byte string of 0..8 bytes', ALL4), En('h_connect12', 'CONNECT with every 12-byte rest', ('good', 'bad')), En('h_indep12', 'as h_indep10 with 12 bytes', ('trailing',), quick=False, time=500), En('h_raw12', 'every byte string of 0..12 bytes', ALL4, quick=False)],
 'C03': RAW_Q + BIG + RAW_T + BIG_T,
 'C04': [En('h_enc_acks', 'every acknowledgement, identifier, return code; SUBACK with 1..200 codes', ('round trip',)), En('h_enc_publish', 'PUBLISH with every topic of 0..3 bytes, payload of 0..2 bytes, every flag and identifier', ('round trip',)),
         En('h_enc_publish_mid', 'PUBLISH with payloads of 119..129 symbolic bytes', ('round trip',)), En('h_enc_len', 'every remaining length from 0 to 268435455', ('length',)),
         En('h_enc_size', 'PUBLISH at remaining lengths around every boundary up to 2097153', ('sized',)), En('h_enc_max', 'PUBLISH at remaining lengths 268435454 and 268435455', ('sized',))],
 'C05': RAW_Q + BIG + RAW_T,
}
NA = {
 'N01': 'Of memory accesses of parallel worker threads only those to the static variables of the broker are interleaved here (S13 decides that no counter update is lost), and sequentially consistently; a memory-model encoding of tokio, its channels and its scheduler is out of reach.',
}
LEVEL = 'model_checking'
TECH = {'C': 'symbolic execution of the compiled decoder/encoder (LLVM IR) with an SMT solver, against an independent reference decoder',
        'T': 'symbolic execution of the compiled topic tree and App (LLVM IR) with an SMT solver, against a reference matcher',
        'S': 'symbolic execution of the whole compiled broker (LLVM IR) on a modelled scheduler, clock and network, with an SMT solver',
        'G': 'symbolic execution of the compiled configuration code (LLVM IR) with an SMT solver'}
ASSUME = ['The IR is what rustc and LLVM -O1 make of the sources (panic=abort, overflow checks on); the native replays run an unoptimised build of the same sources.',
          'Symbolic values of data-dependent addresses and allocation sizes are enumerated by forking over all feasible values, not approximated.',
          'Hash values are a constant, so hash maps are iterated in one order per history; uuid bytes are arbitrary but fixed and distinct.']
ASSUME_S = ['The network, the clock, signals and task spawning are modelled (harness/tokio/src); sockets deliver what was written in order, time is a counter, and all tasks run on one thread that switches only where a task waits (in the counted_parallel entries: also before any access to a static variable of the broker). Channels, select! and cancellation are the real tokio.',
            'The address connections come from is fixed and distinct, and log records are made at every level but not formatted or written.']
En.steps = 40_000_000
En.loose = False
En.scaled = False  # how fast hash tables level off differs between the encoding (constant hashes) and the real code: only what shows in both counts
En.hang = ('C01',)
def group(entry):
    return 'g_len' if entry == 'h_enc_len' else 'g_codec' if entry.startswith(('h_raw', 'h_sized', 'h_connect', 'h_indep', 'h_big', 'h_huge', 'h_enc')) else {'h_conf': 'g_conf', 'h_tree': 'g_tree'}.get(entry[:6], 'g_sys')
DE = ('delivery', 'end')
def S(name, bound, covers=DE, **kw): e = En('h_sys_' + name, bound, covers, **kw); e.steps = 1_000_000_000; return e
def deep(e, time=None): return En_copy(e, quick=False, time=time)
def En_copy(e, **kw):
    n = En(e.name, e.bound, e.covers, **kw); n.steps = e.steps; n.scaled = e.scaled; return n
Y = {e.name[6:]: e for e in [
 S('first', 'every packet kind as the first packet of a connection, every packet identifier, more packets behind it'),
 S('many_filters', 'one client with 300 filters in 3 requests, 15 of them looked at, one given up and taken again, 4 ways of going on'), S('many_filters2', 'as many_filters with 1500 filters'),
 S('crowd', '120 clients with the same filter and 40 silent connections, one of 5 leaving, then all closing or the signal', ('delivery', 'end', 'shut down')), S('crowd2', 'as crowd with 400 and 133', ('delivery', 'end', 'shut down')),
 S('once_lots', '5,000 unreleased QoS 2 messages, one of which is resent'), S('once_all', '12,000 unreleased QoS 2 messages, one of which is resent'), S('once_many', '300 unreleased QoS 2 messages, resends of 5 of them, and of every identifier'), S('once_many2', 'as once_many with 700'),
 S('long_text', 'client id, topic, filters and payload of 70 and 300 bytes of 1..4-byte characters in every alignment'), S('long_text2', 'as long_text with 5000 and 65535 bytes'),
 S('long_connect', 'CONNECT with will, user name and password of 70, 300, 65535 bytes of 1..4-byte characters in every alignment'),
 S('residue1', 'the same session 32 times with 1 of 13 operations (one of them 20 filters at once): fresh clients with 10 endings, one that reconnects with 10 endings, a lasting one'), S('residue2', 'as residue1 with 2 operations and 3 endings'), S('residue2b', 'as residue1 with 2 operations'), S('residue3', 'as residue1 with 3 operations and 3 endings'),
 S('raw_first6', 'every 6 bytes on a new connection'), S('raw_first8', 'every 8 bytes on a new connection'),
 S('raw_connect6', 'CONNECT with the right name and level and every 6 bytes behind', ('delivery', 'end', 'accepted', 'refused')), S('raw_connect10', 'as raw_connect6 with 10 bytes', ('delivery', 'end', 'accepted', 'refused')),
 S('second_connect', 'a second CONNECT with 4 client ids and every keep alive, and every server-only packet, on an established connection'),
 S('connect_then1', 'CONNECT and 1 of 12 requests in one read, 4 free select! starts'), S('connect_then2', 'CONNECT and 2 of 12 requests in one read, 4 free select! starts'),
 S('requests2', 'every sequence of 2 of 12 requests, every packet identifier'), S('requests3', 'every sequence of 3 of 12 requests, every packet identifier'), S('requests4', 'every sequence of 4 of 12 requests, every packet identifier'),
 S('at_once2', '2 of 12 requests in one read, 4 free select! starts'), S('at_once2b', '2 of 12 requests in one read, 7 free select! starts'), S('at_once3', '3 of 12 requests in one read, 3 free select! starts'),
 S('crossed1', '1 of 12 requests while messages arrive, 6 free scheduling choices, 3 free select! starts'), S('crossed2', '2 of 12 requests while messages arrive, 4 free scheduling choices, 2 free select! starts'), S('crossed2b', '2 of 12 requests while messages arrive, 6 free scheduling choices, 4 free select! starts'),
 S('raw_next6', 'every 6 bytes on an established connection'), S('raw_next8', 'every 8 bytes on an established connection'), S('raw_next10', 'every 10 bytes on an established connection'),
 S('cut1', 'a session of 10 packets cut at every place'), S('cut2', 'a session of 10 packets cut at every two places'), S('cut_crossed', '8 packet kinds cut at every place, a message delivered on the same connection in between'),
 S('short_reads', 'a session read in pieces of every size up to 24'), S('free_reads', 'the first 12 bytes of a session read in every way in pieces of up to 6'),
 S('large', 'PUBLISH of 11 sizes from 8100 to 20000 bytes in 4 ways of arriving'), S('huge', 'PUBLISH of 65535, 70000, 140000, 1,100,000, 2,200,000 bytes in 4 ways of arriving'), S('huge2', 'PUBLISH of 5,000,000 bytes in 4 ways of arriving'), S('huge_writes2', 'a 2,200,000-byte message through writes of at most 100, 4096, 65536 bytes'), S('many', '100 packets of 150 bytes arriving at once, at 16 offsets'),
 S('short_writes', 'writes that take at most every size up to 40'), S('free_writes', 'writes that take any number of bytes up to 6 for one exchange'),
 S('blocked_ask', '1 of 12 requests of a client whose transport stops taking bytes after every number up to 15 with two messages waiting'), S('blocked_asks', 'as blocked_ask with 2 requests'),
 S('blocked', 'a transport that stops taking bytes after every number up to 40, two orders of messages'), S('blocked2', 'as blocked, then takes any number up to 20 more and stops again'),
 S('large_writes', 'a 3000-byte message through writes of at most 1, 100, 4096, 65536 bytes'), S('huge_writes', 'a 70000-byte message through writes of at most 100, 4096, 65536 bytes'),
 S('content', 'every topic of 1..3 ASCII characters, every payload of 0..2 bytes, every QoS, RETAIN, three publishers'), S('content5', 'as content with topics up to 5 and payloads up to 3'),
 S('order', 'two publishers of 2 messages each, 8 free scheduling choices, 2 free select! starts'), S('order3', 'two publishers of 3 messages each, 10 free scheduling choices, 2 free select! starts'),
 S('mixed3', 'every 3 of subscribe/unsubscribe/publish by three clients on 4 filters, then two messages'), S('mixed4', 'as mixed3 with 4 operations'),
 S('burst', '400 messages at once, the subscriber blocked or not'), S('burst_big', '3000 messages at once, the subscriber blocked or not'),
 S('qos', 'all pairs of granted and published QoS, two subscribers, two messages, every identifier'), S('ids3', '3 rounds of messages at QoS 1 and 2, one or two topics, every acknowledgement of any of them, or none'), S('ids4', 'as ids3 with 4 rounds'),
 S('ids_wrap', '65,540 deliveries in a row to one client'),
 S('once4', 'every 4 of PUBLISH, resent PUBLISH, PUBREL, QoS 1 PUBLISH, PUBREC over two arbitrary identifiers'), S('once5', 'as once4 with 5 operations'), S('once6', 'as once4 with 6 operations'),
 S('once_any3', '3 operations with arbitrary identifiers, at once'), S('once_any4', '4 operations with arbitrary identifiers, at once'), S('once_two', '4 operations of two publishers with the same identifier, one reconnecting'),
 S('keep0', 'every keep alive 1..65535, silence right after CONNECT', ('goes',)), S('keep1', 'every keep alive 1..65535, every packet kind at its end, then silence', ('stays', 'goes')), S('keep3', 'every keep alive 1..65535, 3 packets of every kind, then silence', ('stays', 'goes')),
 S('keep_gaps', '5 keep alives, 3 packets at every whole second within', ('goes',)), S('keep_others', 'a silent client while others publish to it in 12 rhythms', ('goes',)),
 S('keep_zero', 'keep alive zero with every pause up to 28 hours in units, then a week', ('stays',)), S('keep_none', 'every prefix of a CONNECT packet, with pauses, then silence', ('goes',)), S('keep_stuck', 'silence within a packet, or with unread packets', ('goes',)),
 S('endings', '11 ways of ending a connection at 5 stages, with every prefix of a packet', DE), S('endings_behind', '12 ways of ending a connection that 1, 3, 40, 150 messages wait to be written to, 4 windows'), S('endings_again', 'as endings, with a new connection of the same client id after it'),
 S('churn3', 'every 3 connections with 3 stages and 3 endings'), S('churn5', 'every 5 connections with 3 stages and 3 endings'),
 S('takeover', 'takeover with 0..2 subscriptions held, 5 late packets of the old connection, both orders of subscribing'), S('takeover_free', 'takeover with 6 free scheduling choices and 3 free select! starts'), S('takeover_free2', 'two takeovers in a chain, 5 free scheduling choices and 2 free select! starts each'),
 S('takeover_stalled', 'takeover of a connection that takes 0..2 bytes with up to 250 messages waiting'), S('takeover_not', 'ids that only look alike, and empty ids'),
 S('bad', '9 ways of misbehaving (connections that fail on accept among them), every prefix of a packet'), S('bad_free', '9 ways of misbehaving with 4 free scheduling choices'), S('odd_among', '9 filters of shared groups and invalid ones x 4 SUBSCRIBE requests that mix them with ordinary ones x 6 ways to go on'), S('odd', '24 odd topics and filters (shared subscriptions, 65,535 levels, ...) subscribed, published to, unsubscribed, subscribed again, left', ('delivery', 'end')), S('flood', '10,300 messages to a client that does not read'), S('flood_small', '600 messages to a client that does not read'),
 S('interrupted', 'the signal after every number of task steps up to 60 of a session', ('delivery', 'shut down')), S('shutdown', 'the signal with two connections in each of 8 conditions', ('delivery', 'shut down')),
 S('shutdown_busy', 'the signal with up to 520 requests queued everywhere, 3 free scheduling choices', ('shut down',)), S('shutdown_busy2', 'the signal with up to 2,400 requests queued everywhere, 5 free scheduling choices', ('shut down',)), S('shutdown_free', 'the signal with 5 free scheduling choices and 3 free select! starts', ('shut down',)), S('shutdown_free2', 'the signal with 6 free scheduling choices and 5 free select! starts', ('shut down',)),
 S('counted2', 'every 2 of 12 requests by two clients and 3 endings', ('counted', 'end')), S('counted3', 'every 3 of 12 requests by two clients and 3 endings', ('counted', 'end')), S('counted_cut', 'a session with 5 read and 5 write sizes', ('counted', 'end')),
 S('counted_big', '3 messages of 60,000 bytes and 300 small ones', ('counted', 'end')), S('counted_many', '3 messages of 60,000 bytes and 65,540 small ones', ('counted', 'end')), S('counted_parallel2', '49 pairs of operations of two connections that are served by two threads, with at most 2 interruptions before any accesses to shared variables', ('counted', 'end')), S('counted_parallel3', 'as counted_parallel2 with 3 interruptions', ('counted', 'end')), S('counted_clients', '300 connections, one after another', ('counted', 'end')), S('listens', '1..4 clients, 4 free select! starts', ('end',)),
 S('t_one5', 'every filter of 1..5 and topic of 1..5 ASCII characters'), S('t_one6', 'every filter of 1..6 and topic of 1..6 ASCII characters'), S('t_one7', 'every filter of 1..7 and topic of 1..7 ASCII characters'),
 S('t_long', 'filter and topic of two levels of 0..3 ASCII characters each'), S('t_long4', 'filter and topic of two levels of 0..6 ASCII characters each'), S('t_utf', 'filter and topic of 1..3 bytes of any UTF-8'),
 S('t_two2', '2 filters of 1..2 one-character levels by one or two clients, every QoS, and a topic of 1..2 levels'), S('t_two3', '2 filters of 1..3 one-character levels by one or two clients, 3 QoS orders, and a topic of 1..3 levels'), S('t_two4', 'as t_two3 with 4 levels'),
 S('t_over1', '3 one-character filters of one client, every QoS'), S('t_over2', '3 filters of 1..2 levels of one client, 3 QoS orders'), S('t_over3', '3 filters of 1..3 levels of one client, 3 QoS orders'),
 S('t_three2', '3 filters of 1..2 levels by up to three clients'), S('t_three3', '3 filters of 1..3 levels by up to three clients'),
 S('t_hist2', 'every 2 subscribe/unsubscribe of two clients over filters of 1..3 ASCII characters and a topic likewise'), S('t_hist3', 'every 3 subscribe/unsubscribe of two clients over filters of 1..2 ASCII characters'), S('t_hist3b', 'every 3 subscribe/unsubscribe of two clients over filters of 1..3 ASCII characters'),
 S('t_shist2', 'every 3 subscribe/unsubscribe of two clients over filters of 1..2 one-character levels'), S('t_shist3', 'every 3 subscribe/unsubscribe of two clients over filters of 1..3 one-character levels'),
 S('t_shist4', 'every 4 subscribe/unsubscribe of one client over filters of 1..2 one-character levels'), S('t_shist4b', 'every 4 subscribe/unsubscribe of two clients over filters of 1..2 one-character levels'),
 S('t_change1', '2 filters of 1..2 levels of two clients, then one subscribe or unsubscribe'), S('t_change2', '2 filters of 1..3 levels of two clients, then one subscribe or unsubscribe'), S('t_change3', '3 filters of 1..2 levels of one client, then one subscribe or unsubscribe'), S('t_change3b', '3 filters of 1..2 levels of three clients, then one subscribe or unsubscribe'),
 S('t_levels', 'filters and topics of 1, 2, 5, 64, 200 levels that differ in one level or at the end, then unsubscribed or subscribed anew'), S('t_levels2', 'filters and topics of 15 depths up to 200 levels that differ in one level or at the end, then unsubscribed or subscribed anew'), S('t_deep6', 'a topic of 6 one-character levels against a filter that differs in up to 2 levels and its end, then unsubscribed'), S('t_deep3', 'a topic of 3 one-character levels against three filters of three clients that differ in up to 2 levels and their end, then one unsubscribed'),
 S('t_codes2', 'SUBSCRIBE with 1..2 filters of 1..3 ASCII characters, then UNSUBSCRIBE'), S('t_codes3', 'SUBSCRIBE with 1..3 filters of 1..2 ASCII characters, then UNSUBSCRIBE'), S('t_many', 'SUBSCRIBE with 60 filters, one of them invalid in 6 ways at every position'),
]}
for e in ('residue1', 'residue2', 'residue2b', 'residue3'): Y[e].scaled = True
def sys_plan(quick, thorough=''): return [Y[x] for x in quick.split()] + [deep(Y[x]) for x in thorough.split()]
PLAN.update({
 'S01': sys_plan('first second_connect raw_connect6 raw_first6 connect_then1 raw_first8 long_connect', 'raw_connect10 connect_then2 raw_next10 takeover_free crowd'),
 'S02': sys_plan('requests2 blocked_ask crossed1 raw_next6 requests3 at_once2', 'requests4 blocked_asks at_once3 at_once2b crossed2 crossed2b raw_next10 connect_then2 many_filters'),
 'S03': sys_plan('large cut_crossed cut1 short_reads many huge free_reads', 'cut2 huge2 raw_next10'),
 'S04': sys_plan('short_writes blocked blocked_ask large_writes blocked2 huge_writes free_writes burst', 'huge_writes2 burst_big counted_cut blocked_asks'),
 'S05': sys_plan('content order order3 burst large requests2 crossed1 mixed3 flood flood_small huge long_text crowd cut_crossed', 'content5 burst_big mixed4 large_writes churn5 once5 crowd2 long_text2 many_filters'),
 'S06': sys_plan('qos t_codes2 ids3 crowd ids_wrap', 'ids4 mixed4 content5 order3'),
 'S07': sys_plan('once_any3 once4 once_two once_any4 once5 once_many once_lots', 'once6 once_many2 once_all'),
 'S08': sys_plan('keep_others keep_none keep_stuck keep_gaps keep0 keep1 keep_zero keep3', 'endings'),
 'S09': sys_plan('endings endings_behind endings_again churn3 keep_none keep_stuck keep_others keep1 second_connect cut_crossed bad takeover', 'churn5 raw_next8 blocked2 takeover_free flood'),
 'S10': sys_plan('takeover takeover_not takeover_stalled endings_again churn3 takeover_free long_text', 'takeover_free2 interrupted'),
 'S11': sys_plan('bad odd flood_small flood burst keep_stuck takeover_stalled bad_free long_text crowd long_connect', 'burst_big blocked2 shutdown raw_next8 long_text2 crowd2'),
 'S12': sys_plan('interrupted shutdown shutdown_free shutdown_busy crowd', 'shutdown_free2 shutdown_busy2 crowd2'),
 'S13': sys_plan('counted_parallel2 counted2 counted_cut counted_big counted_clients endings churn3 keep_stuck counted3 crowd counted_many', 'counted_parallel3 endings_again churn5 takeover_free crowd2'),
 'S14': sys_plan('residue1 residue2', 'residue2b residue3'),
 'G01': [En('h_conf', 'every port and every interval, in both orders, set once or twice', ('built',))] + sys_plan('listens'),
})
# The subscription tree on its own, without the broker around it: deeper, but tied to the tree's interface.
def tree(name): e = Y['t_' + name]; return En('h_tree_' + name, e.bound + ' (the subscription tree alone)', ('match', 'no match'), quick=False)
def trees(names): return [tree(x) for x in names.split()]
PLAN.update({
 'T01': sys_plan('t_two3 t_one6 t_long t_utf t_deep6 t_levels long_text many_filters', 't_levels2 t_one7 t_long4 t_hist2 t_three2 t_two4 many_filters2') + trees('one7 two4 three3 deep3 hist3b'),
 'T02': sys_plan('t_two2 t_over1 t_over2 t_two3 crowd', 't_three2 t_over3 crowd2') + trees('over3 three2 three3 shist4'),
 'T03': sys_plan('t_change1 t_hist2 t_deep6 many_filters odd_among', 't_shist2 t_change3 many_filters2') + trees('hist3 hist3b shist3 shist4 shist4b change2 change3 change3b'),
 'T04': sys_plan('t_many t_codes2 t_one5 many_filters odd_among long_text', 't_codes3 t_one6 t_hist2 many_filters2'),
})
FALLBACK = {'C01': sys_plan('raw_first8 raw_next8 raw_connect6 large'), 'C02': sys_plan('many cut1 raw_next8'), 'C03': sys_plan('content raw_next8 large raw_connect6'),
            'C04': sys_plan('short_writes large_writes huge_writes requests2'), 'C05': sys_plan('raw_first8 raw_next8 raw_connect6 t_many')}
def ours(funs):
    """Demangled-ish names of the broker's own functions."""
    import re
    for f in funs:
        if 'mqtt_h' not in f or '7harness' in f: continue
        p = re.findall(r'(\d+)(?=([A-Za-z_]))', f)
        i, parts = 0, []
        while i < len(f):
            m = re.match(r'(\d+)_?', f[i:])
            if m and 0 < int(m.group(1)) < 80:
                n = int(m.group(1)); s = f[i + m.end():i + m.end() + n]
                if re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', s) and len(s) == n: parts.append(s); i += m.end() + n; continue
            i += 1
        yield '::'.join(x for x in parts if x != 'mqtt_h')
