# Runs scripts of calls on the Ruby binding and records what came back, one JSON line per call.
# usage: ruby driver.rb SCRIPT OUT SKIP   (script format: see driver.c)
require 'json'
require 'gestalt'
include Ohcount

Process.setrlimit(:FSIZE, 256 << 20)   # a record that never ends must not fill the disk
Process.setrlimit(:AS, 3500 << 20) unless ENV['LD_PRELOAD']
OUT = File.open(ARGV[1], "ab")
SKIP = ARGV[2].to_i

def u(s)
  s && s.to_s.dup.force_encoding(Encoding::ISO_8859_1).encode(Encoding::UTF_8)
end

def pl(x)
  [u(x.name), x.code_count, x.comments_count, x.blanks_count, u(x.code), u(x.comments)]
end

def loc(x)
  [u(x.language), x.code, x.comments, x.blanks, x.filecount, x.total]
end

def delta(x)
  [u(x.language), x.code_added, x.code_removed, x.comments_added, x.comments_removed, x.blanks_added, x.blanks_removed]
end

def gests(a)
  a && a.map { |g| [g.type.to_s, u(g.name), g.count] }
end

def item(x)
  case x
  when ParsedLanguage then pl(x)
  when Loc then loc(x)
  when LocDelta then delta(x)
  when SourceFile then [u(x.filepath), u(x.polyglot), x.language_breakdowns.map { |l| pl(l) }]
  else u(x)
  end
end

def step(op, a)
  case op
  when "SF"  # slot path option...: c=contents d=location n=name
    opt = {}
    a[2..-1].each do |o|
      case o[0]
      when "c" then opt[:contents] = o[1..-1]
      when "d" then opt[:file_location] = o[1..-1]
      when "n" then (opt[:filenames] ||= []) << o[1..-1]
      when "N" then opt[:filenames] ||= []
      end
    end
    $sf[a[0]] = opt.empty? ? SourceFile.new(a[1]) : SourceFile.new(a[1], opt)
    {}
  when "SETC" then $sf[a[0]].set_contents(a[1]); {}
  when "SETD" then $sf[a[0]].file_location = a[1]; {}
  when "SETN" then $sf[a[0]].filenames = a[1..-1]; {}
  when "INFO"
    s = $sf[a[0]]
    { filepath: u(s.filepath), filename: u(s.filename), ext: u(s.ext), location: u(s.file_location) }
  when "NAMES"
    { names: $sf[a[0]].filenames.map { |n| u(n) } }
  when "EACH"
    x = []
    $sf[a[0]].each { |n| x << u(n) }
    { names: x }
  when "CONT"
    s = $sf[a[0]]
    c = s.contents
    { contents: u(c), size: s.contents_size, enc: c && c.encoding.to_s }
  when "LANG" then { lang: u($sf[a[0]].polyglot) }
  when "LANGS" then { langs: $sf[a[0]].languages.map { |l| u(l) } }
  when "BREAK" then { pl: $sf[a[0]].language_breakdowns.map { |l| pl(l) } }
  when "BREAK1"
    l = $sf[a[0]].language_breakdown(a[2] == "s" ? a[1].intern : a[1])
    { pl: l && pl(l) }
  when "LOC" then { loc: $sf[a[0]].loc_list.map { |l| loc(l) } }
  when "LIC" then { lic: $sf[a[0]].licenses.map { |l| u(l) } }
  when "DIFF" then { delta: $sf[a[0]].diff($sf[a[1]]).loc_deltas.map { |l| delta(l) } }
  when "HOLD"  # handle what slot [other]: keep objects that are parts of others
    s = $sf[a[2]] || $list[a[2]]
    $held[a[0]] =
      case a[1]
      when "pl" then s.language_breakdowns
      when "loc" then s.loc_list
      when "one" then [s.language_breakdown(s.polyglot.to_s)].compact
      when "names" then s.filenames
      when "lic" then s.licenses
      when "delta" then s.diff($sf[a[3]])
      when "files" then x = []; s.each_source_file { |f| x << f }; x
      when "paths" then x = []; s.each { |f| x << f }; x
      end
    {}
  when "HELD" then { items: $held[a[0]].map { |x| item(x) } }
  when "LET" then $held.delete(a[0]); {}
  when "DROP" then $sf.delete(a[0]); $list.delete(a[0]); {}
  when "JUNK"  # overwrite freed Ruby strings and freed memory
    n = a[0].to_i
    $junk = (0...n).map { |i| ("J" * (i % 200)) + i.to_s }
    $junk = nil
    {}
  when "GC" then GC.start; {}
  when "COMPACT" then (GC.respond_to?(:compact) && GC.compact rescue nil); {}
  when "STRESS" then GC.stress = a[0] == "1"; {}
  when "LNEW"  # slot option...: p=directory f=file
    opt = {}
    a[1..-1].each do |o|
      (opt[o[0] == "p" ? :paths : :files] ||= []) << o[1..-1]
    end
    $list[a[0]] = opt.empty? ? SourceFileList.new : SourceFileList.new(opt)
    {}
  when "LFILE" then $list[a[0]].add_file(a[1]); {}
  when "LDIR" then $list[a[0]].add_directory(a[1]); {}
  when "LSIZE" then { size: $list[a[0]].size }
  when "LEACH"
    x = []
    $list[a[0]].each { |f| x << u(f) }
    { names: x }
  when "LFILES"
    x = []
    $list[a[0]].each_source_file { |f| x << [u(f.filepath), u(f.polyglot), f.language_breakdowns.map { |l| pl(l) }, f.loc_list.map { |l| loc(l) }] }
    { files: x }
  when "LANA"
    l = $list[a[0]].analyze_languages
    x = []
    i = l.head
    while i
      x << loc(i.loc)
      i = i.next
    end
    { loc: x, totals: [l.code, l.comments, l.blanks, l.total, l.filecount] }
  when "LGEST"
    $list[a[0]].analyze_gestalt
    { gestalts: gests($list[a[0]].gestalts) }
  when "ANALYZE"
    w = a[1..-1].map { |x| x.intern }
    $list[a[0]].analyze(*(w.empty? ? [] : w.size == 1 ? w : [w]))
    { gestalts: gests($list[a[0]].gestalts) }
  when "GEST" then { gestalts: gests($sf[a[0]].gestalts) }
  when "FIND" then { gestalts: gests(Gestalt::Base.find_gestalts($list[a[0]])) }
  when "SORT"  # the report of gestalt.rb
    { gestalts: gests($list[a[0]].gestalts.sort) }
  when "ISBIN" then { ret: Detector.binary_filename?(a[0]) }
  when "NAME"
    m = Ohcount.ohcount_hash_language_from_name(a[0])
    { name: m && u(m.name), nice: m && u(m.nice_name), cat: m ? m.category : -1 }
  else
    $stderr.puts "unknown op #{op}"
    exit 98
  end
end

data = File.binread(ARGV[0])
pos = 0
line = lambda do
  e = data.index("\n", pos)
  l = e && data[pos...e]
  pos = e + 1 if e
  l
end
nth = -1
skip = true
while (l = line.call)
  op, n = l.split(" ")
  if op == "CASE"
    GC.stress = false
    nth += 1
    skip = nth < SKIP
    $sf, $list, $held = {}, {}, {}
    unless skip
      OUT.write(JSON.generate(case: nth) + "\n")
      OUT.flush
    end
    next
  end
  args = (0...n.to_i).map do
    len = line.call.to_i
    s = data[pos, len]
    pos += len + 1
    s
  end
  next if skip
  r = begin
    step(op, args)
  rescue NoMemoryError, StandardError => e
    GC.stress = false
    { error: e.class.to_s, text: u(e.message.b)[0, 300], at: e.backtrace.to_a.first(4).map { |b| b.sub(/.*\//, "") } }
  end
  OUT.write(JSON.generate({ op: op }.merge(r)) + "\n")
  OUT.flush
end
OUT.write("{\"end\":1}\n")
OUT.close
