import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
R='packedrtree/packedrtree.go'; B='packedrtree/box.go'; H='packedrtree/hilbert.go'
FR='flatgeobuf/file_reader.go'; FW='flatgeobuf/file_writer.go'
p('C01','Index size is the exact byte size of the tree, or an overflow error',
 'For every reference count of at least 1 and node size of at least 2, the size function reports exactly 40 bytes times the number of leaf and internal nodes of the packed tree (levels obtained by repeatedly dividing by the node size, rounding up, until one node is left, with always at least one internal level), and returns an error exactly when that number does not fit in an int. It never returns a wrapped, negative or truncated size. A reference count below 1 or a node size below 2 panics.',
 ['inputs'],'all int reference counts and all uint16 node sizes',
 'The tests try about ten (count, node size) pairs; the claim is about all 2^63 x 65536 pairs, in particular those near integer overflow.',
 [R],[('Size/size/totalNodes',R),('validateParams',R)],['packedrtree.Size'])
p('C02','A built index is a well-formed packed R-tree over its input',
 'Building an index over any non-empty reference list with any node size of at least 2 yields a tree whose leaves are the input references in input order, whose levels are laid out root first and leaves last with each level packing the one below it, and in which every internal node records the index of its first child and exactly the smallest box that contains all its children. The input list is not modified, the reported reference count and node size are the ones given, and the reported bounds are the smallest box containing every reference.',
 ['inputs'],'all reference lists (no NaN coordinates) and all node sizes',
 'The tests build about twenty small trees; partially filled last nodes, deep trees and unusual node sizes are only sampled.',
 [R,B],[('New',R),('levelify/noo',R),('Box.Expand',B)],['packedrtree.New','PackedRTree.Bounds','PackedRTree.Marshal bytes'])
p('C03','In-memory search returns exactly the intersecting references, once each',
 'For every index built over references without NaN coordinates, and every query box, an in-memory search returns one result for each reference whose bounding box shares at least one point with the query box and no result for any other reference; each result carries the offset and position of its reference. Nothing is reported twice and nothing is missed, whatever the number of references and the node size.',
 ['inputs'],'all well-formed indexes (any size and node size) and all query boxes',
 'Tests query a handful of boxes against trees of at most about 20 references; completeness is a universally quantified claim over trees of unbounded depth.',
 [R,B],[('packedRTree.search',R),('stackPush/stackPop',R),('Box.intersects',B)],['PackedRTree.Search'])
p('C04','Streaming search agrees with in-memory search and leaves the cursor after index',
 'For every serialized index, the streaming search over a seekable stream returns the same set of results as deserializing the index and searching in memory, in the order in which the references are stored in the index (hence in ascending order of result offset when the index lists its references in file order). On success the stream is positioned at the first byte after the index, wherever the index started; on a failing read or seek an error is returned and no results.',
 ['inputs','fault_sequences'],'all serialized indexes, start offsets and query boxes, and every pattern of short reads and read/seek failures of the stream',
 'Tests stream a few small indexes that start at offset 0 whose offsets happen to be ascending; sortedness and cursor position for arbitrary trees and start offsets are never settled.',
 [R],[('Seek and its fetch closure',R),('packedRTree.search with heapPush/heapPop',R),('readLittleEndianNodes',R)],['packedrtree.Seek results','position of the stream after Seek'])
p('C05','Index serialization round-trips and has the exact FlatGeobuf layout',
 'Serializing an index writes exactly the number of bytes that the size function reports: every node, root first, as four little-endian IEEE doubles (min x, min y, max x, max y) followed by a little-endian 64-bit offset. Deserializing those bytes with the same reference count and node size consumes exactly that many bytes and gives an index with the same nodes, so that it answers every query and re-serializes identically. A stream that ends early, or a write that fails, produces an error.',
 ['inputs','fault_sequences'],'all indexes, readers that return short reads or errors at any point, and writers that fail at any point',
 'The tests round-trip about twenty small trees; byte layout and consumption for every tree, and errors at every truncation point, are not enumerable.',
 [R,'packedrtree/native_littleendian.go'],[('PackedRTree.Marshal',R),('Unmarshal',R)],['bytes written by Marshal','PackedRTree returned by Unmarshal'])
p('C06','Box expansion is the least upper bound and intersection is exact',
 'Expanding a box by another box or by a point yields, for all coordinates that are not NaN, the smallest box that contains both, changes nothing when the argument is already contained, and never modifies the argument; the empty box is the neutral element. Two boxes are reported as intersecting exactly when their closed rectangles have a point in common.',
 ['inputs'],'all boxes and points with float64 coordinates, including infinities and signed zeros',
 'Tests use a table of small integer boxes; touching edges, infinities, degenerate and empty boxes form an infinite input space.',
 [B],[('Expand/ExpandXY/intersects/EmptyBox',B)],['Box.Expand','Box.ExpandXY','PackedRTree.Search of a single reference'])
p('C07','Hilbert sort is a permutation in descending Hilbert order of box centers',
 'Sorting a reference list with a given bounding box rearranges the list without losing, duplicating or altering any reference, and leaves it in descending order of the Hilbert-curve position of each box center scaled to the given bounds (each axis mapped to 0..65535, rounded down; an axis of zero extent maps to 0). The comparison used is a strict weak order.',
 ['inputs'],'all reference lists and bounds',
 'Tests sort six fixed boxes and the sample files; permutation and order for every list are universally quantified.',
 [H],[('hilbertSortable.Less/Swap/Len',H),('HilbertSort',H),('hilbertOfCenter',H)],['packedrtree.HilbertSort'])
p('C08','The Hilbert index is the order-16 Hilbert curve: bijective and continuous',
 'The mapping from grid cells to curve positions used for sorting maps the 65536 x 65536 grid one-to-one onto the positions 0 to 2^32-1, starts at cell (0,0), ends at cell (65535,0), and always places consecutive positions in edge-adjacent cells. It coincides with the canonical recursive definition of the Hilbert curve of order 16.',
 ['inputs'],'all 2^32 grid cells',
 'The tests check a few curve points; a wrong mask or shift in one step of the bit-parallel algorithm corrupts only some cells and still sorts.',
 [H],[('hilbertOfXY',H)],['order produced by packedrtree.HilbertSort'])
p('C09','The serialized index is little-endian on every host byte order',
 'On big-endian hosts the package builds, serializing reverses exactly the bytes of each 8-byte field of each node and leaves the in-memory tree untouched, and deserializing reverses them back, so that files are byte-for-byte the same on every architecture. The byte count returned and the error returned are those of the underlying writer, for any size of index.',
 ['configurations','inputs'],'all supported target architectures, all index sizes, all writer failures',
 'The tests run on one little-endian host only, where the conversion is a no-op, so the big-endian code is never even compiled.',
 ['packedrtree/native_bigendian.go','packedrtree/native_littleendian.go'],[('fixLittleEndianOctets','packedrtree/native_bigendian.go'),('writeLittleEndianOctets','packedrtree/native_bigendian.go')],['bytes written by Marshal on a big-endian host'])
p('C10','Property values are encoded little-endian and decode to the value written',
 'For each FlatGeobuf property type, writing any value emits exactly the little-endian encoding of that type (strings and binaries as a 32-bit length followed by the bytes) and reports the number of bytes written, and reading it back returns the identical value, bit for bit, consuming exactly the bytes written. A stream that ends or fails inside a value gives an error and not a value.',
 ['inputs','fault_sequences'],'all values of all fifteen property types, all short-read patterns and truncation points',
 'No test writes properties at all, and the sample files only contain values whose high bytes hide sign, shift and byte-order mistakes.',
 ['flatgeobuf/prop_reader.go','flatgeobuf/prop_writer.go'],[('PropReader.Read*','flatgeobuf/prop_reader.go'),('PropWriter.Write*','flatgeobuf/prop_writer.go')],['PropReader.Read*','PropWriter.Write*'])
p('C11','Schema-driven property decoding returns every pair or an error',
 'Decoding a property byte stream against a schema returns, in stream order, one entry per encoded column with that column index, the column type the schema declares for it, and the value decoded as that type, and it succeeds only if the stream ends exactly after a complete entry. A stream that is truncated inside an entry, a read failure, or a column index that the schema does not have, yields an error instead of a list with missing or made-up values.',
 ['inputs','fault_sequences'],'all property byte streams, all schemas, all truncation points and read failures',
 'The only coverage is printing one sample feature; truncation inside a value and every column type at every position are not tested.',
 ['flatgeobuf/prop_reader.go'],[('PropReader.ReadSchema','flatgeobuf/prop_reader.go')],['PropReader.ReadSchema','FeatureString'])
p('C12','Only a valid signature, version and bounded header get past the file header',
 'The magic-number check accepts exactly the 8-byte FlatGeobuf signatures, returns their major and patch version and reads 8 bytes. Reading a file header succeeds only after a valid signature with the supported major version, a header length of at least 4 and at most 32 MiB, that many header bytes, a feature count that fits an int and an index node size other than 1; then the reader is positioned directly after the header. In every other case an error is returned and every later operation on that reader fails with an error.',
 ['inputs','fault_sequences'],'all byte streams and all read failures',
 'The tests only open well-formed sample files; rejection of each malformed prefix and of each length boundary is untested.',
 ['flatgeobuf/spec.go',FR],[('Magic','flatgeobuf/spec.go'),('FileReader.Header',FR)],['Magic','FileReader.Header'])
p('C13','The reader enforces its call order and stays failed after an error',
 'Whatever sequence of operations is called on a file reader, none of them panics: the header must come first and only once, the index or index search only directly after the header or a rewind, and violating this returns an error and leaves the reading position and later behaviour unchanged. After an I/O or format error has been reported every later operation returns an error, and after close every operation reports that the reader is closed.',
 ['histories','fault_sequences'],'all call sequences over the public methods, seekable and non-seekable streams, with faults at any point, for files whose announced index and features fit in memory',
 'The tests exercise only a few legal call orders on seekable files; illegal orders, non-seekable streams and operations after failures are not covered.',
 [FR,'flatgeobuf/stateful.go'],[('stateful.toState/toErr/close','flatgeobuf/stateful.go'),('state checks in every FileReader method',FR)],['errors returned by FileReader methods'],
 [dict(name='state',meaning='position in the file protocol',where='flatgeobuf/stateful.go'),dict(name='err',meaning='sticky error',where='flatgeobuf/stateful.go')])
p('C14','Data reading yields every feature once, in order, and never fakes the end',
 'Reading features in batches of any sizes delivers the features of the data section in file order, each consisting of exactly its own bytes, none skipped, repeated or shared with another. End of file is reported only once all features announced by the header have been delivered or, when the count is unknown, when the stream ends exactly between two features; a stream that ends early or fails yields an error other than end of file. Reading the data directly after the header skips exactly the index.',
 ['inputs','histories','fault_sequences'],'all files, all batch sizes and sequences of calls, short reads and truncation at every byte',
 'Tests read whole sample files with one call; batch boundaries, empty batches, unknown counts, truncation points and non-seekable streams are a product space that tests do not reach.',
 [FR],[('Data/DataRem',FR),('readFeature',FR),('skipIndex/discard',FR)],['FileReader.Data','FileReader.DataRem'],
 [dict(name='featureIndex',meaning='features delivered so far',where=FR),dict(name='featureOffset',meaning='bytes of data section consumed',where=FR)])
p('C15','Index search on a file returns exactly the indexed features that match',
 'Searching a file returns, in ascending file order, for each index entry whose box intersects the query box, the feature stored at that entry\'s offset in the data section, and nothing else. The outcome does not depend on whether the stream is seekable, whether the index was already loaded, or in which order the index lists its entries; a file that ends before a matching feature gives an error.',
 ['inputs','histories'],'all files with a well-formed index over features that do not overlap (entries in any order), all query boxes, seekable and non-seekable streams, cached or uncached index',
 'The only test needs a file that is missing from the repository; skipping arithmetic, entry order and non-seekable streams are untested.',
 [FR,R],[('FileReader.IndexSearch',FR),('discard',FR),('readFeature',FR)],['FileReader.IndexSearch'])
p('C16','Rewinding restores the just-after-header state',
 'After a successful rewind the reader behaves exactly as it did directly after the header was read: loading the index, searching and reading data give the same answers as the first time, whatever was called in between. Rewinding is refused with an error, and nothing changes, when the header has not been read or the position of the index is unknown.',
 ['histories'],'all sequences of index, search, data and rewind calls on a seekable file',
 'Rewind is only used in an example that cannot run; combinations of cached index, saved offsets and rewind points are not tested.',
 [FR],[('Rewind',FR),('saveIndexOffset/saveDataOffset',FR),('Index cached path',FR)],['FileReader.Rewind followed by Index, IndexSearch, Data'],
 [dict(name='indexOffset/dataOffset',meaning='absolute offsets of the index and data sections once known',where=FR)])
p('C17','The writer emits exactly magic, header, index and features, and counts them',
 'Writing a header emits the 8-byte signature followed by exactly the size-prefixed header table; writing an index emits exactly the serialized index; writing a feature emits exactly its size-prefixed table: nothing before, between or after. Every write reports the number of bytes that reached the underlying stream, and a table that is not a complete size-prefixed root table at the start of its buffer is refused with an error before any of it is written.',
 ['inputs','fault_sequences'],'all header and feature tables, all writer failures and short writes',
 'There is not a single test of the file writer.',
 [FW,'flatgeobuf/flatbuffers.go'],[('writeSizePrefixedTable/tableSize','flatgeobuf/flatbuffers.go'),('FileWriter.Header/Index/Data',FW)],['bytes received by the io.Writer','n returned'])
p('C18','The writer enforces order and feature count',
 'Whatever sequence of operations is called on a file writer, the header must be written first and once, an index is accepted only directly after a header that announces one and only if its reference count and node size match the header, features are accepted only after the announced index and never beyond the announced count; every violation is an error that writes nothing and leaves the writer usable. After an error in the middle of a write all later writes fail with it, and closing reports a truncated file exactly when fewer features were written than announced.',
 ['histories','fault_sequences'],'all call sequences over the public methods, all writer failures',
 'There is not a single test of the file writer; the protocol is a property of call histories.',
 [FW,'flatgeobuf/stateful.go'],[('canWriteIndex/canWriteData/toState',FW),('FileWriter.Close',FW)],['errors returned by FileWriter methods'],
 [dict(name='featureIndex',meaning='features written so far',where=FW)])
p('C19','The generated index points at each written feature and covers its geometry',
 'When the writer indexes the features it writes, each feature gets one index entry whose offset is the byte position of that feature in the data section that follows and whose box is the smallest box that contains all coordinates of its geometry, including those of nested parts (the empty box if there are none). A feature that cannot be inspected makes the call fail with an error before anything is written.',
 ['inputs'],'all feature lists and geometries, including nested collections',
 'There is no test that writes an indexed file; offsets and nested geometry are never exercised.',
 [FW,'flatgeobuf/stringers.go'],[('IndexData/IndexDataPtr',FW),('featureBounds/geomBounds',FW)],['index section written by IndexData and IndexDataPtr'])
p('C20','Malformed FlatBuffers data yields errors, not panics',
 'Reading or writing a header, indexing features, and producing the textual summaries of headers and features never panic on account of malformed table bytes, whatever those bytes are; the failure is reported as an error, or as an error text in the summary. A feature length prefix that is too small, or too large to be represented, is likewise reported as an error.',
 ['inputs'],'all header and feature byte strings',
 'Tests use only valid sample files; the set of corrupt tables is unbounded.',
 ['flatgeobuf/flatbuffers.go',FR,FW,'flatgeobuf/stringers.go'],[('safeFlatBuffersInteraction','flatgeobuf/flatbuffers.go'),('readFeature length checks',FR)],['panics out of Header, IndexData, HeaderString, FeatureString, Data'])
p('C21','Table accessors and builders agree with the FlatGeobuf schema',
 'Every generated accessor of header, feature, geometry, column and coordinate-reference tables reads the field that the FlatGeobuf 3 schema assigns to it, at the schema\'s slot, with the schema\'s type, element size and default value when absent, and every generated builder function writes that same slot with that same type and default. Hence any field written through a builder is read back unchanged by the accessor of the same name and by no other accessor, and the enumerations have the schema\'s numeric values and names.',
 ['inputs'],'all tables, all fields, all values',
 'The sample files set few of the roughly fifty fields, and most defaults and slots are never observed.',
 ['flatgeobuf/flat/Header.go','flatgeobuf/flat/Feature.go','flatgeobuf/flat/Geometry.go','flatgeobuf/flat/Column.go','flatgeobuf/flat/Crs.go','flatgeobuf/flat/ColumnType.go','flatgeobuf/flat/GeometryType.go'],[('accessors and builders','flatgeobuf/flat/')],['flat.Header, Feature, Geometry, Column, Crs methods'])
p('C22','A corrupt index cannot crash or derail a search',
 'Whatever bytes are offered as an index, deserializing and searching them, in memory or streaming, terminates without panicking and without touching nodes outside the index: it returns either results that refer to leaf entries of that index whose boxes intersect the query, or an error.',
 ['inputs'],'all byte strings offered as index, all counts and node sizes whose index fits in memory, all query boxes',
 'Tests only search indexes that the package itself built; child pointers of a hostile index are arbitrary 64-bit numbers.',
 [R],[('packedRTree.search bounds',R),('Unmarshal',R)],['packedrtree.Unmarshal, PackedRTree.Search, packedrtree.Seek'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
