#!/usr/bin/env python3
# Writes known_findings.json (committed): findings recorded and defects repaired in /repo.
import json,os,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP={
"selection of any value":("C06","condition on any attribute value selected only empty ones after an expression with an empty value"),
"namespace check in":("C06","path expressions with '::' accepted and others refused in 2 and 4 byte encodings"), # subject prefix of the fix commit -> (properties, what failed)
"unterminated comment":("C05","documents cut inside a comment, PI, CDATA section or DOCTYPE subset ended as if complete"),
"iterator element of an error":("C01","scanner iterator reported an error element without message"),
"lookup of user defined":("C02","user defined entities were looked up by the address of their name"),
"IsoLatin-3":("C03","IsoLatin-3 bytes after the first undefined one decoded to the wrong character"),
"print characters specific":("C03","characters of an IsoLatin code page >1 were printed as numeric entity"),
"incomplete UTF-8":("C05","an incomplete UTF-8 character swallowed the characters after it (also the end of the data)"),
"skipping or copying":("C03","character skipped or copied before it was looked at lost bytes at a chunk boundary; surrogate pairs copied half"),
"character skipped with":("C03","postincrement continued after a chunk boundary inside a UTF-8 character returned a broken character"),
"check of the low":("C03","invalid UTF-16 surrogate pairs accepted, valid ones rejected"),
"CDATA section ending":("C02","CDATA section ending with ']]]>' swallowed the rest of the document"),
"question mark inside":("C02","'?' inside a processing instruction ended it or gave an error"),
"exception text":("C04","exception text of a failed read named another cause, the last cause had none"),
"construction, assignment":("C04","failed first read leaked the stream buffer, assigned stream iterators freed it twice"),
"failing read":("C04","failing read of a std::istream was reported as regular end of data"),
"copy and assignment of StaticBuffer":("C12","copies of StaticBuffer leaked, assignment freed twice"),
"bounds of the element":("C09","StaticBuffer element access read one element after the content"),
"tag stack size":("C10","tag stack wrote out of bounds after a failed reallocation"),
"assignment of the tag":("C12","assignment of a printer freed its tag stack twice"),
"header and doctype printed":("C08","header and DOCTYPE were printed wrong with a 2 or 4 byte application character set"),
"carriage return in":("C08","carriage return in content was read back as newline"),
"printer calls not":("C08","calls in a not allowed state were accepted (attribute without value) or rejected without error"),
"DOCTYPE printed":("C08","DOCTYPE accepted inside of a tag or element"),
"copy of the XML header":("C12","copied header parser lost encoding and error"),
"copy of the XML scanner":("C12","scanner copied inside a token lost the token state"),
"copy of the XML path":("C12","selection copied inside the document lost its context"),
"scope closed more":("C06","scope was closed once per copy of the result iterator"),
"element index counted":("C06","index ranges of selected contents counted every element twice"),
"search for an attribute":("C06","search for an attribute in all descendants stopped at the first content"),
"invalid numeric":("C02","invalid numeric references not reported verbatim"),
"parse state of an":("C01","an element interrupted inside of an entity and resumed with another mask (or masked after a failed read) left a stale position: read behind the expected key CDATA"),
"index ranges set":("C06","two index ranges (FROM, TO, RANGE, INDEX) kept the start of the first one, RANGE(n,-1) ignored n"),
"keys of path":("C06","keys in path expressions cut at spaces, entities not decoded"),
"characters beyond":("C06","characters beyond ASCII in path expressions taken as operators"),
"missing termination":("C06","keys of path expressions read out of bounds for 2 and 4 byte character sets"),
"failing copy":("C10","failed copy of an automaton state leaked, assignment freed twice"),
"dangling content of":("C04","scanner iterator pointed to a released buffer after a failed read"),
"expanding a buffer":("C09","StaticBuffer::resize beyond the capacity was truncated without overflow"),
"program terminated":("C10","textwolf::exception constructor declared throw() but allocates: std::terminate in a shortage"),
"distance of two IStreamIterators":("C13","distance of two stream iterators wrong after a buffer refill"),
"dangling link":("C10","failed allocation while an expression was added left a dangling link in the automaton"),
}
extra=os.path.join(V,"tools","fix_props.json")
if os.path.exists(extra): PROP.update({k:tuple(v) for k,v in json.load(open(extra)).items()})
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()
fixed=[]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    s=s[5:]
    m=[(k,v) for k,v in PROP.items() if s.startswith(k)]
    assert len(m)==1,(s,m)
    fixed.append("fixed: property=%s %s %s"%(m[0][1][0],h,m[0][1][1]))
fn=os.path.join(V,"known_findings.json")
old=json.load(open(fn)) if os.path.exists(fn) else {"findings":[]}
json.dump({"findings":old["findings"],"fixed":fixed},open(fn,"w"),indent=1); open(fn,"a").write("\n")
