"""Seed queries: every command, option and expression form the parser knows (not a sample: the checks enumerate around each)."""

QUERIES = r'''
search a=1
search index=main a=1 OR b="x y" NOT c=3
index=main sourcetype="x" foo
search foo bar*
search "free text" AND NOT baz
search a!=b c>=2 d<=3 e<4 f>5 g==6
search a IN (1, "b", c*, 2.5)
search src=10.0.0.0/8 dst=10.1.2.3
search (a=1 OR b=2) (c=3 OR NOT d=4)
search index=a index=b
search TERM(x.y)
search a::b
search earliest=-1d@d latest=now
search a="*x*" b=x%y c=a_b
where a=1
where a > b AND b < 3 OR NOT c = "q"
where isnull(a) OR like(b,"x%")
where a + b * 2 - c / 4 > 5
where a IN (1,2,3)
where match(a,"^x.*y$")
where cidrmatch("10.0.0.0/8", ip)
where true() OR false()
eval x=1
eval x=a + 1, y=b . "z"
eval x=if(a=1,"y","n")
eval x=case(a=1,"one",a=2,"two",true(),"many")
eval x=coalesce(a,b,"d")
eval 'my field'=1
eval x='other field' + 2
eval x="it's \"quoted\" \\ \n"
eval x=-3.25
eval x=round(a,2), y=abs(b), z=ceiling(c), w=floor(d)
eval x=len(s), y=lower(s), z=upper(s), t=ltrim(s," "), u=rtrim(s," "), v=trim(s," ")
eval x=substr(s,1,2), y=replace(s,"a","b"), z=split(s,",")
eval x=mvcount(m), y=mvindex(m,0), z=mvjoin(m,","), w=mvappend(m,"x"), v=mvfilter(m="a")
eval x=strftime(_time,"%Y-%m-%d %H:%M:%S"), y=strptime(s,"%d/%m/%Y")
eval x=relative_time(_time,"-1d@d"), y=now(), z=time()
eval x=max(a,b), y=min(a,b,c), z=sum(a,b), w=avg(a,b)
eval x=pow(a,2), y=sqrt(b), z=exp(1), w=ln(c), v=log(d,10)
eval x=tonumber(s), y=tostring(n), z=typeof(n)
eval x=isnotnull(a), y=isnum(a), z=isint(a), w=isstr(a), v=isbool(a)
eval x=md5(s), y=sha1(s), z=sha256(s), w=sha512(s)
eval x=null(), y=pi(), z=random()
eval x=sin(a), y=cos(a), z=tan(a), w=atan2(a,b), v=hypot(a,b)
eval x=nullif(a,b), y=validate(a=1,"bad",b=2,"worse")
eval x=ipmask("255.0.0.0",ip), y=urldecode(u), z=json_keys(j)
eval x=bit_and(a,b), y=bit_or(a,b), z=bit_xor(a,b)
eval x=searchmatch("a=1"), y=in(a,1,2)
eval x=(a + (b - c)) * d, y=NOT (a=1 AND b=2)
stats count
stats count by a
stats count, sum(a) AS total, avg(b) by c, d
stats count() as n dc(a) values(b) list(c) by d
stats min(a) max(a) range(a) first(b) last(b) earliest(c) latest(c)
stats stdev(a) var(a) median(a) mode(a) p95(a) perc50(a) sumsq(a) stdevp(a) varp(a)
stats count(eval(a=1)) as n by b
stats sum(eval(a + b)) as n
stats partitions=2 allnum=true delim=":" count by a span=1h
stats distinct_count(a) as d, estdc(b) by "my field"
eventstats count as n by a
streamstats count
timechart count
table a b c
table a, b, "c d"
fields a b
fields + a, b
fields - a b
fields a*, b
rename a AS b
rename a AS "my b", c as d
sort a
sort - a, + b
sort 5 a, -b
sort limit=3 a desc
sort 0 num(a)
head
head 5
head limit=7
head count<3
head count<=3 keeplast=true null=false
head 3 >= count
tail 5
top a
top 3 a by b
top limit=2 countfield=n percentfield=p showperc=false a, b
rare 3 a by b
rare limit=2 showcount=false a
dedup a
dedup 2 a b keepevents=true sortby -c
fillnull
fillnull value=0 a b
fillnull value="N A" a
addtotals
addtotals row=true col=false fieldname=T a b
addtotals a, b
bin span=5m _time
bin span=10 a
bin bins=3 a AS b
bucket _time span=1h
join a [search index=b]
join type=left a, b [search index=c | fields a b]
join type=outer usetime=true earlier=false overwrite=false max=1 a [search b=2]
lookup users uid
lookup users uid AS id OUTPUT name AS who, mail
lookup users uid OUTPUTNEW name
inputlookup users where a=1
inputlookup append=t strict=f start=1 max=5 users
multisearch [search index=a | eval x=1] [search index=b] [search index=c]
append [search index=b]
makeresults
makeresults count=3 annotate=true splunk_server="h" splunk_server_group=g
map search="search index=x a=$a$" maxsearches=2
mvcombine delim="," a
mvexpand a limit=3
nomv a
regex "^a.*"
regex a="x\d+"
regex a!="y|z"
rex "(?<u>\w+)@(?<h>\S+)"
rex field=a "(?<x>\d+)-(\d+)" max_match=1
rex mode=sed field=a "s/a/b/g"
rex field=a max_match=0 "(?P<q>.)"
spath
spath path=a.b.c
spath input=j output=o path=a{0}.b
spath output=o a.b
convert ctime(a)
convert timeformat="%Y-%m-%d" ctime(a) AS b mktime(c)
convert num(a) auto(b) memk(c) rmunit(d) rmcomma(e) dur2sec(f) mstime(g) none(h)
collect index=x addtime=true file=f host=h marker=m a b
format
format mvsep="|" maxresults=3 "(" "(" "AND" ")" "OR" ")"
return 3 a
return $a b=c
datamodel Endpoint Processes search
datamodel summariesonly=true strict_fields=false M M.D search
tstats count
tstats count from datamodel=M where M.a=1 by M.b
tstats prestats=f summariesonly=t allow_old_summaries=t fillnull_value=null count min(_time) as a values(M.x) as x from datamodel=M.D where (M.a=1 OR M.b="z*") M.c IN (1,2) by M.d, _time span=1h
tstats count where index=a nodename=b by host
tstats append=true chunk_size=5 avg(x) from y
'''.strip().split("\n")

PIPES = r'''
search index=main | where a=1 | table a
index=main | eval x=a + 1 | stats sum(x) as s by b | sort -s | head 3
index=main | fields a b | rename a AS c | where c > 1 | tail 2
search a=1 | eval y="x | y" | search y="*|*"
index=a | join x [search index=b | join y [search index=c | fields y] | fields x] | table x
| tstats count from datamodel=M by M.a | rename M.a AS a | sort a
| makeresults count=2 | eval a=1 | append [| makeresults]
multisearch [index=a | eval q="["] [index=b | eval q="]"] | stats count by q
index=main [search index=b | fields a | format] | stats count
'''.strip().split("\n")

ALL = QUERIES + PIPES

COMMANDS = ["addtotals", "bin", "bucket", "collect", "convert", "datamodel", "dedup", "eval", "eventstats", "fields", "fillnull",
            "format", "head", "inputlookup", "join", "lookup", "makeresults", "map", "multisearch", "mvcombine", "mvexpand", "rare",
            "regex", "rename", "return", "rex", "search", "sort", "spath", "stats", "streamstats", "table", "tail", "top", "tstats",
            "where", ""]
