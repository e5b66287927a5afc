"""What each property is decided by: symbolic runs over the real code."""
CORE = ["models_core.cc", "models_libc.c"]
RUNS = {}
PROPS = {}
def run(name, **k): RUNS[name] = k; return name
def prop(pid, runs, **k): PROPS[pid] = dict(runs=runs, **k)

Z = CORE + ["models_zlib.cc"]
SM = ["spectator/smile.cc", "spectator/compressed_buffer.cc"]
run("smile_int", harness="smile.cc", entry="h_smile_int", units=SM, models=Z, native_models=["models_zlib.cc"], reach=["int"], params={"maxn": 2**31 - 1}, what="every non-negative 31-bit integer", bounds="all integers 0..2^31-1 (symbol ids are list indexes)")
run("smile_double", harness="smile.cc", entry="h_smile_double", units=SM, models=Z, native_models=["models_zlib.cc"], reach=["double"], what="every 64-bit pattern")
run("smile_string", harness="smile.cc", entry="h_smile_string", units=SM, models=Z, native_models=["models_zlib.cc"], reach=["short", "long"], what="every ASCII string up to the length bound", quick=dict(params={"maxlen": 72}), thorough=dict(params={"maxlen": 260}))
prop("C15", ["smile_int", "smile_double", "smile_string"])
A = CORE + ["models_absl.cc"]
POOL = ["spectator/string_pool.cc", "spectator/common_refs.cc"]
def ids(n, **k): run(n, harness="ids.cc", entry="h_" + n, units=POOL, models=A, **k)
ids("intern", reach=["all distinct", "some equal"], quick=dict(params={"n": 3, "maxlen": 2}), thorough=dict(params={"n": 4, "maxlen": 3}))
ids("intern_overloads", reach=["overloads"])
ids("tags_add", reach=["large", "small"], params={"k": 1, "prefill": 14})
run("tags_add2", harness="ids.cc", entry="h_tags_add", units=POOL, models=A, reach=["large", "small"], params={"k": 2}, thorough=dict(params={"k": 3}))
ids("tags_copy", reach=["copy", "move", "assign", "add_all", "chain"])
ids("tags_eq", reach=["same", "different"], quick=dict(params={"n": 2}), thorough=dict(params={"n": 3}))
ids("id", reach=["same", "different"], quick=dict(params={"n": 1}), thorough=dict(params={"n": 2}))
prop("C05", ["intern", "intern_overloads"])
prop("C06", ["tags_add", "tags_add2", "tags_copy", "tags_eq"])
prop("C07", ["id"])
METERS = POOL + ["spectator/%s.cc" % x for x in ("counter", "gauge", "max_gauge", "timer", "dist_summary", "monotonic_counter", "monotonic_counter_uint", "monotonic_sampled")]
def met(n, k, kt, **kw): run(n, harness="meters.cc", entry="h_" + n, units=METERS, models=A, quick=dict(params={"k": k}), thorough=dict(params={"k": kt}), **kw)
met("counter", 4, 6, reach=["reported", "done"])
met("timer", 3, 4, reach=["reported", "done"])
met("dist", 3, 5, reach=["reported", "done"])
run("gauge", harness="meters.cc", entry="h_gauge", units=METERS, models=A, reach=["expired", "live"], quick=dict(params={"k": 3, "shape": 0}), thorough=dict(params={"k": 4, "shape": 0, "his": 3}))
run("gauge_id", harness="meters.cc", entry="h_gauge", units=METERS, models=A, reach=["expired", "live"], params={"k": 1})
met("maxgauge", 4, 6, reach=["reported", "nothing"])
met("agegauge", 3, 5, reach=["reported"])
met("monotonic", 5, 7, reach=["reported"])
met("monotonic_uint", 5, 7, reach=["wrapped", "increased", "suspicious"])
met("sampled", 4, 6, reach=["reported", "out of order"])
prop("C09", ["counter"])
prop("C10", ["timer", "dist"])
prop("C11", ["monotonic", "monotonic_uint", "sampled"])
prop("C12", ["gauge", "gauge_id", "maxgauge", "agegauge"])
def mt(n, entry=None, pre=3, pret=5, quick=None, thorough=None, **kw): run("mt_" + n, harness="mt.cc", entry="h_mt_" + (entry or n), units=METERS, models=A, threads=True, quick=dict(params=quick or {}, opts={"preempt": pre}), thorough=dict(params=thorough or quick or {}, opts={"preempt": pret}), **kw)
mt("counter", reach=["split"], thorough={"rounds": 2}, pret=4)
mt("timer", pre=3, pret=4, reach=["measured", "not measured"])
mt("dist", pre=3, pret=4, reach=["measured", "not measured"])
mt("maxgauge", reach=["measured"])
mt("gauge", reach=["2 last", "3 last"])
mt("gauge_expiry", reach=["old value", "new value"], quick={"setters": 2}, pret=6)
mt("monotonic", reach=["two reports"])
mt("monotonic_uint", reach=["two reports"])
mt("sampled", reach=["measured"])
prop("C09", ["counter", "mt_counter"])
prop("C10", ["timer", "dist", "mt_timer", "mt_dist"])
prop("C11", ["monotonic", "monotonic_uint", "sampled", "mt_monotonic", "mt_monotonic_uint", "mt_sampled"])
prop("C12", ["gauge", "gauge_id", "maxgauge", "agegauge", "mt_gauge", "mt_gauge_expiry", "mt_maxgauge"])

SRV = METERS + ["spectator/%s.cc" % x for x in ("registry", "percentile_buckets", "smile", "compressed_buffer", "strings", "gzip", "http_client")] + ["server/%s.cc" % x for x in ("spectatord", "udp_server", "local_server", "proc_utils")]
W = A + ["models_zlib.cc", "models_logger.cc", "models_net.cc"]
NW = ["models_net.cc", "models_logger.cc"]
def srv(n, **k): run(n, harness="parse.cc", entry="h_" + k.pop("entry", n), units=SRV, models=W, native_models=NW, libs=["-lz"], **k)
srv("measurement", reach=["malformed", "no number", "tags", "plain", "trailing"], quick=dict(params={"n": 5}), thorough=dict(params={"n": 7}))
srv("measurement_tag", entry="measurement", reach=["malformed", "no number", "tags"], quick=dict(params={"n": 4, "form": 1}), thorough=dict(params={"n": 6, "form": 1}))
srv("measurement_tag2", entry="measurement", reach=["malformed", "no number", "tags"], quick=dict(params={"n": 4, "form": 2}), thorough=dict(params={"n": 6, "form": 2}))
prop("C01", ["measurement"])
srv("line", reach=["accepted", "rejected"], quick=dict(params={"n": 5}), thorough=dict(params={"n": 7}))
srv("line_ttl", entry="line", reach=["accepted", "rejected"], quick=dict(params={"n": 4, "form": 1}), thorough=dict(params={"n": 6, "form": 1}))
srv("line_extra", entry="line", reach=["accepted", "rejected"], quick=dict(params={"n": 4, "form": 2}), thorough=dict(params={"n": 6, "form": 2}))
srv("line_ts", entry="line", reach=["accepted", "rejected"], quick=dict(params={"n": 4, "form": 3}), thorough=dict(params={"n": 6, "form": 3}))
prop("C01", ["measurement", "measurement_tag", "measurement_tag2", "line", "line_ttl", "line_extra", "line_ts"])
for _i, _t in enumerate("AcCdDgmtTUX"): srv("type_" + _t + ("2" if _t.isupper() else "1"), entry="type", reach=[_t], params={"type": _i})
prop("C04", [r for r in RUNS if r.startswith("type_")])
srv("lines", reach=["several good", "some bad", "mixed"], quick=dict(params={"gap": 2, "lines": 2}), thorough=dict(params={"gap": 3, "lines": 3}))
srv("lines_statsd", entry="lines", reach=["several good", "some bad", "mixed"], quick=dict(params={"gap": 2, "lines": 2, "statsd": 1}), thorough=dict(params={"gap": 2, "lines": 3, "statsd": 1}))
srv("lines_blank", entry="lines", reach=["several good", "some bad", "mixed"], quick=dict(params={"gap": 4, "lines": 2, "blank": 1}), thorough=dict(params={"gap": 4, "lines": 3, "blank": 1}))
srv("lines_blank_sd", entry="lines", reach=["several good", "some bad", "mixed"], quick=dict(params={"gap": 4, "lines": 2, "blank": 1, "statsd": 1}), thorough=dict(params={"gap": 4, "lines": 3, "blank": 1, "statsd": 1}))
def st(n, form, q, t, reach): srv(n, entry="statsd", reach=reach, quick=dict(params={"n": q, "form": form}), thorough=dict(params={"n": t, "form": form}))
st("statsd", 0, 7, 8, ["accepted", "rejected", "set"])
st("statsd_type", 1, 5, 6, ["accepted", "rejected", "set"])
st("statsd_rate", 2, 5, 6, ["accepted", "rejected", "sampled", "tags"])
st("statsd_tags", 3, 6, 7, ["accepted", "rejected", "tags"])
st("statsd_rate_tags", 4, 5, 7, ["accepted", "rejected", "tags", "sampled"])
prop("C03", ["statsd", "statsd_type", "statsd_rate", "statsd_tags", "statsd_rate_tags"])
srv("statsd_numbers", reach=["rejected", "c", "g", "h", "ms"])
prop("C03", ["statsd", "statsd_type", "statsd_rate", "statsd_tags", "statsd_rate_tags", "statsd_numbers"])
def pc(n, **k): run(n, harness="perc.cc", entry="h_" + n, units=SRV, models=W, native_models=NW, libs=["-lz"], **k)
pc("perc_table")
pc("perc_index", reach=["no amount", "last", "inner"])
pc("perc_order", reach=["done"])
pc("perc_edges", reach=["done"])
pc("perc_ds", reach=["negative", "below", "above", "inside"])
pc("perc_timer", reach=["negative", "below", "above", "inside"])
pc("perc_estimate", reach=["first bucket", "second bucket"])
pc("perc_several", reach=["done"])
prop("C08", ["perc_table", "perc_index", "perc_edges", "perc_order", "perc_ds", "perc_timer", "perc_estimate", "perc_several"])
def us(n, **k): run(n, harness="strs.cc", entry="h_path", units=["spectator/strings.cc"], models=CORE, **k)
us("path", reach=["empty", "plain", "other"], quick=dict(params={"n": 6}), thorough=dict(params={"n": 8}))
us("path_url", reach=["no path", "query", "path"], quick=dict(params={"n": 5, "form": 1}), thorough=dict(params={"n": 8, "form": 1}))
prop("C22", ["path", "path_url"])
def zp(n, **k): run(n, harness="zip.cc", entry="h_" + n, units=["spectator/compressed_buffer.cc", "spectator/gzip.cc"], models=Z, native_models=["models_zlib.cc"], **k)
zp("cbuf", reach=["first"], quick=dict(params={"k": 3}), thorough=dict(params={"k": 4}))
run("cbuf_again", harness="zip.cc", entry="h_cbuf", units=["spectator/compressed_buffer.cc", "spectator/gzip.cc"], models=Z, native_models=["models_zlib.cc"], reach=["first", "again"], quick=dict(params={"k": 1, "rounds": 2}), thorough=dict(params={"k": 2, "rounds": 2}))
zp("cbuf_append", reach=["first", "again"])
zp("cbuf_drop", reach=["done"])
zp("gzip", reach=["no start", "too small", "short", "round trip"], quick=dict(params={"n": 6}), thorough=dict(params={"n": 9}))
zp("gunzip", reach=["good", "bad"], quick=dict(params={"n": 11}), thorough=dict(params={"n": 14}))
prop("C17", ["cbuf", "cbuf_again", "cbuf_append", "cbuf_drop", "gzip", "gunzip"])

PR = dict(harness="proc.cc", units=["server/proc_utils.cc"], models=A + ["models_logger.cc", "models_proc.cc"], native_models=["native_proc.cc", "models_logger.cc"])
run("bufsize", entry="h_bufsize", reach=["unreadable", "number", "no number", "long"], quick=dict(params={"n": 4}), thorough=dict(params={"n": 6}), **PR)
run("udpinfo", entry="h_udpinfo", reach=["unreadable", "found", "absent"], quick=dict(params={"lines": 2}), thorough=dict(params={"lines": 3, "digits": 2}), **PR)
prop("C20", ["bufsize", "udpinfo"])
RV = dict(harness="recv.cc", units=["server/udp_server.cc", "server/local_server.cc", "server/proc_utils.cc"], models=A + ["models_logger.cc", "models_proc.cc", "models_net.cc"], native_models=["models_net.cc", "models_logger.cc"])
run("recv_any", entry="h_recv_any", reach=["udp", "udp4", "local", "error", "empty", "message"], **RV)
run("recv_seq", entry="h_recv_seq", reach=["udp", "udp4", "local", "error", "empty", "message"], quick=dict(params={"k": 2}), thorough=dict(params={"k": 3}), **RV)
prop("C21", ["recv_any", "recv_seq"])
def rg(n, **k): run(n, harness="reg.cc", entry="h_" + k.pop("entry", n), units=SRV, models=W, native_models=NW, libs=["-lz"], **k)
def rgt(n, lo, cnt, reach): rg(n, entry="registry", reach=["kept", "report"] + reach, quick=dict(params={"k": 4, "from": lo, "types": cnt}), thorough=dict(params={"k": 5, "ids": 3, "from": lo, "types": cnt}))
rgt("reg_age", 0, 1, ["limit", "deleted"]); rgt("reg_gauge", 3, 1, ["expired", "deleted"]); rgt("reg_counter", 1, 2, ["expired"]); rgt("reg_mono", 4, 3, ["expired"]); rgt("reg_sampled", 7, 2, ["expired"])
rg("types", reach=["done"])
rg("many", reach=["all", "one", "expiry"], quick=dict(params={"n": 30}), thorough=dict(params={"n": 80}))
rg("many_alike", entry="many", reach=["all", "one", "expiry"], quick=dict(params={"n": 70, "collide": 1}), thorough=dict(params={"n": 100, "collide": 1}))
prop("C13", ["reg_age", "reg_gauge", "reg_counter", "reg_mono", "reg_sampled", "types", "many", "many_alike"])
rg("cache", reach=["look up", "none", "all", "some"], quick=dict(params={"k": 5}), thorough=dict(params={"k": 7}))
rg("cache_many", entry="cache", reach=["look up", "none", "some"], quick=dict(params={"k": 3, "prefill": 40}), thorough=dict(params={"k": 4, "prefill": 90}))
prop("C19", ["cache", "cache_many"])
srv("idle", reach=["after idling"], quick=dict(params={"k": 3}), thorough=dict(params={"k": 4}))
prop("C02", ["lines", "lines_blank", "lines_blank_sd", "lines_statsd", "idle"])
pc("perc_idle", reach=["after idling", "at once"], quick=dict(params={"k": 3}), thorough=dict(params={"k": 4}))
prop("C08", ["perc_table", "perc_index", "perc_edges", "perc_order", "perc_ds", "perc_timer", "perc_estimate", "perc_several", "perc_idle"])
def ht(n, **k): run(n, harness="http.cc", entry="h_" + k.pop("entry", n), units=SRV, models=W, native_models=["models_zlib.cc"] + NW, **k)
ht("http_retry", reach=["one", "two", "three"], quick=dict(params={"statuses": 5}), thorough=dict(params={"statuses": 14}))
ht("http_status", reach=["kept", "retried"])
ht("http_time", reach=["given up", "three"])
ht("http_kinds", reach=["first", "second"])
ht("http_anystatus", reach=["kept", "retried", "twice"])
prop("C18", ["http_anystatus", "http_retry", "http_status", "http_time", "http_kinds"])
def pb(n, **k): run(n, harness="publish.cc", entry="h_" + k.pop("entry", n), units=SRV, models=W, native_models=["models_zlib.cc"] + NW, **k)
pb("pub_payload", reach=["sent"], quick=dict(params={"n": 1, "tagsets": 4}), thorough=dict(params={"n": 1, "tagsets": 4}))
pb("pub_payload2", entry="pub_payload", reach=["sent"], quick=dict(params={"n": 2, "tagsets": 2, "stats": 2}), thorough=dict(params={"n": 2, "tagsets": 4, "stats": 3}))
pb("pub_batches", reach=["nothing", "several", "one"], quick=dict(params={"n": 5}), thorough=dict(params={"n": 7}))
pb("pub_answers", reach=["accepted", "dropped"], quick=dict(params={"n": 3}), thorough=dict(params={"n": 5}))
pb("pub_strange", reach=["done", "count"])
pb("pub_anytext", reach=["count", "document"], quick=dict(params={"k": 3}), thorough=dict(params={"k": 4}))
pb("pub_expiry", reach=["sent"])
pb("pub_rounds", reach=["done"], quick=dict(params={"rounds": 2}), thorough=dict(params={"rounds": 3}))
prop("C16", ["pub_payload", "pub_payload2", "pub_batches", "pub_answers", "pub_strange", "pub_anytext", "pub_expiry", "pub_rounds"])

pb("pub_processors", reach=["sent"])
def pm(n, params, pre, pret, thorough=None): run(n, harness="publish.cc", entry="h_pub_threads", units=SRV, models=W, native_models=["models_zlib.cc"] + NW, threads=True, reach=["sent"], quick=dict(params=params, opts={"preempt": pre}), thorough=dict(params=thorough or params, opts={"preempt": pret}))
pm("pub_threads", {"n": 2}, 1, 2)
pm("pub_threads_fail", {"n": 2, "fail": 1, "status": 1}, 1, 2)
pm("pub_threads_three", {"n": 3}, 1, 2)
prop("C16", [r for r in RUNS if r.startswith("pub_")])
def rm(n, entry=None, pre=2, pret=3, quick=None, thorough=None, reach=("done",)): run("rmt_" + n, harness="regmt.cc", entry="h_rmt_" + (entry or n), units=SRV, models=W, native_models=["models_zlib.cc"] + NW, threads=True, reach=list(reach), quick=dict(params=quick or {}, opts={"preempt": pre}), thorough=dict(params=thorough or quick or {}, opts={"preempt": pret}))
for _i, _n in enumerate("counter gauge maxgauge timer dist mono monouint sampled age gaugettl".split()): rm("get_" + _n, "get", quick={"kind": _i})
rm("get_other", "get", quick={"kind": 0, "same": 0})
for _i in range(7): rm("rounds%d" % _i, "rounds", pre=1 if _i == 5 else 2, pret=2 if _i == 5 else 3, quick={"what": _i}, reach=["kept", "deleted", "done"] if _i == 3 else ["done"])
rm("agelimit"); rm("agelimit_same", "agelimit", quick={"same": 1})
rm("intern", reach=["same", "different"], quick={"n": 1}, thorough={"n": 2})
rm("cache"); rm("cache_other", "cache", quick={"same": 0}); rm("cache_two", "cache", quick={"expire": 0})
rm("expire_update", reach=["kept"]); rm("tags"); rm("percentile"); rm("percentile_ds", "percentile", quick={"what": 1})
prop("C14", [r for r in RUNS if r.startswith("rmt_")])
def ad(n, **k): run(n, harness="admin.cc", entry="h_" + n, units=SRV + ["admin/admin_server.cc"], models=W + ["models_admin.cc"], native_models=["models_admin.cc"] + NW, libs=["-lz"], **k)
ad("adm_delete", reach=["nothing", "all", "one"], quick=dict(params={"n": 3}), thorough=dict(params={"n": 4}))
ad("adm_elsewhere", reach=["done", "described", "refused"])
ad("adm_host", reach=["here", "elsewhere"], quick=dict(params={"n": 2}), thorough=dict(params={"n": 4}))
ad("adm_route", reach=["known", "unknown"], quick=dict(params={"n": 2}), thorough=dict(params={"n": 3}))
ad("adm_tags", reach=["done", "refused"], quick=dict(params={"k": 2}), thorough=dict(params={"k": 3}))
ad("adm_get", reach=["some", "none"])
prop("C23", [r for r in RUNS if r.startswith("adm_")])
def sp(n, entry, reach, params, pre=2, pret=3, thorough=None): run(n, harness="stop.cc", entry="h_" + entry, units=SRV, models=W + ["models_proc.cc"], native_models=["models_zlib.cc"] + NW, threads=True, reach=["done"] + reach, quick=dict(params=params, opts={"preempt": pre}), thorough=dict(params=thorough or params, opts={"preempt": pret}))
sp("stop_both", "stop_registry", ["none", "once"], {"budget": 1}, pre=1, pret=2)
sp("stop_publisher", "stop_registry", ["none", "once"], {"expire": 0, "twice": 1}, pre=1, pret=2)
sp("stop_publisher1", "stop_registry", ["again", "once"], {"expire": 0, "after": 1}, pre=1, pret=2)
sp("stop_publisher2", "stop_registry", ["again"], {"expire": 0, "after": 2}, pre=1, pret=2)
sp("stop_both1", "stop_registry", ["again", "once"], {"after": 1}, pre=1, pret=2)
sp("stop_expirer", "stop_registry", ["expired"], {"uri": 0, "twice": 1})
sp("stop_restart", "stop_registry", ["restarted"], {"after": 1, "restart": 1, "expire": 0}, pre=0, pret=0)
sp("stop_server", "stop_server", ["once", "twice"], {})
prop("C24", [r for r in RUNS if r.startswith("stop_")])
def uk(n, reach, entry="upkeep", **k): run(n, harness="upkeep.cc", entry="h_" + entry, units=SRV, models=W + ["models_proc.cc"], native_models=["models_zlib.cc"] + NW, threads=True, reach=["done", "idle"] + reach, **k)
uk("self_cache", ["forgotten", "kept"], quick=dict(params={"rounds": 4}), thorough=dict(params={"rounds": 4, "spans": 5}))
uk("self_cache_any", ["forgotten", "kept"], entry="upkeep", quick=dict(params={"rounds": 3, "any": 1}), thorough=dict(params={"rounds": 3, "any": 1}))
uk("self_net", [], quick=dict(params={"rounds": 4, "net": 1}), thorough=dict(params={"rounds": 4, "net": 1, "spans": 5}))
uk("self_off", [], quick=dict(params={"rounds": 3, "net": 1, "status": 0}), thorough=dict(params={"rounds": 4, "net": 1, "status": 0}))
uk("self_size", ["reported"], "self_size", quick=dict(params={"rounds": 3}), thorough=dict(params={"rounds": 4}))
prop("C25", [r for r in RUNS if r.startswith("self_")])
