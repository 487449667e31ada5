#!/usr/bin/env python3
"""Regenerates known_findings.json. status "known": a genuine defect that has
not been repaired; the check prints it and goes on. status "fixed": repaired by
a commit in /repo; suppresses nothing."""
import json,os
F=[]
def fixed(props,commit,what):
    for p in props.split():
        F.append(dict(status="fixed",property=p,commit=commit,what=what,record=f"fixed: property={p} {commit} {what}"))
def known(prop,cls,match,what):
    F.append({"status":"known","property":prop,"class":cls,"match":match,"what":what,"record":f"KNOWN-FINDING: property={prop} {what}"})

fixed("C01","8484d08","the document writer kept the caller's buffer: samples written through a reused buffer read back as the last one")
fixed("C01","93c8b73","doubles were stored as truncated integers' bits and read back as different values")
fixed("C01","12d2e03","datetimes outside of the years 1678 to 2262 read back as other dates")
fixed("C01","21bde92","metrics of documents nested more than one level lost part of their path in the flattened readers")
fixed("C01","83d19f9","the first value of a timestamp metric was a thousand times the others")
fixed("C03 C05","c98ec95","a read error could reach Close after the consumer had been told that the stream ended; abandoning an iteration reported errors or left goroutines behind")
fixed("C08","989aa45","the dynamic collector compared with the schema of the first sample, not of the current chunk")
fixed("C08","4fd9caa","schemas that differ in the type or nesting of fields had the same fingerprint, and samples were merged under other names")
fixed("C08","13c5809","streaming dynamic collectors lost format or metadata at a schema change")
fixed("C02 C08","cc9d55c","streaming uncompressed collectors were never flushed when full")
fixed("C20","f000677","negative and overflowing lengths in BSON crashed validation")
fixed("C19 C20 C04","65c0221","a damaged document length allocated gigabytes or crashed; reads of cut documents reported a clean end")
fixed("C04","364b87e","damaged ftdc chunks crashed the process, or were delivered altered")
fixed("C20","57a696c","embedded values were accepted without validation and crashed later")
fixed("C06","209d827","buffered collector lost samples, or panicked, when its context ended")
fixed("C07 C01","bb72ac7","setting nil metadata did not unset it")
fixed("C11","5d8c3de","interval recorders ended their background goroutine with the lock held: the next call blocked for ever")
fixed("C11 C10","418d8d1","interval recorders counted iterations twice or not at all")
fixed("C10 C11","2619c74","EndTest lost what was recorded after the last persisted point")
fixed("C10","b7c6d0c","the grouped histogram recorder persisted every iteration, whatever its interval")
fixed("C13","cd360cb","event collectors modified and kept the events of their caller")
fixed("C13 C10","0a5df04","the id and operations of performance events were not read back")
fixed("C12","5f93667","the shim recorder stopped the timer when an iteration began and started it when it ended")
fixed("C10 C11","6e0a728","EndTest returned an error that had been emptied when the collector failed more than once")
fixed("C21","472a1cb","converting CSV lost rows and write errors")
fixed("C21","ee81815","DumpCSV left its file open after an error")
fixed("C14","4dc32ef","collecting runtime metrics in parallel never returned")
fixed("C14","fda6113","collecting runtime metrics left its last file open")
fixed("C15","051568d","JSON collection lost documents and read errors, and left its source goroutine behind")
fixed("C15","6fbd8a7","integers below the 32 bit range were truncated")
fixed("C15","7517f9f","JSON collection left its file open when a document could not be converted")
fixed("C16 C17","804d287","a message that arrived in fragments was refused or mixed with the next; one that was cut short was delivered; blocked reads and writes left goroutines behind")
fixed("C17","8531131","malformed wire messages crashed the process")
fixed("C16","8d566e5","OP_MSG: flags never set or misread, checksum of zero left out, wrong section sizes")
fixed("C16","f23e1b6","a query converted into a command lost its ids, and could not be serialized and read again")
fixed("C16","a913d9f","replies without flags were reported as 'cursor not found'")
fixed("C18","6b2b020","a wire service did not stop on cancellation, crashed with its handlers, lost responses to clients that had stopped sending, and spun on accept errors")
fixed("C20 C17","0580491","validating a document nested millions deep exhausted the stack")
fixed("C01 C02 C06","335b07b","a nil document crashed the collectors, and with the buffered collector the process")
fixed("C01","c515158","samples given as maps of integers were taken as empty, and maps within maps had their fields in random order")
fixed("C23","11e412c","collecting system metrics panicked when the CPU times cannot be read")
fixed("C23","82b08cf","device metrics were recorded in random order, so that samples mixed up the devices")
fixed("C23","f56b334","CPU times were recorded a tick short: 32.41 s as 3240 ticks")
fixed("C23 C14","ce2ee23","collecting runtime metrics ended with an error when a disk appeared, disappeared or could not be measured")
fixed("C23","4306a0c","counts of the Go runtime were lost when two collections fell on one instant")
fixed("C24","d45ff57","keys with quotes, backslashes or control characters were written as invalid JSON")
fixed("C24","8d3f76b","binary values were written as JSON without encoding, subtype and data swapped, and reading them panicked")
fixed("C24","9890839","dates lost their milliseconds in JSON, and years after 9999 could not be read back")
fixed("C24","3ce4325","doubles were written to six digits in JSON, NaN and infinities as invalid JSON, and whole doubles were read as integers")
fixed("C24 C19","1478a1b","Value.Decimal128 swapped the halves of the number")
fixed("C24","2f79cb4","malformed extended JSON ({\"a\":{\"$oid\":5}}) panicked")
fixed("C24","46b0e5b","null bytes in keys and regular expressions of JSON made corrupt BSON")
fixed("C24","8bd1069","deeply nested JSON overflowed the stack or took quadratic time without end")
fixed("C24","eb60b14","a minus sign without digits was accepted as a JSON number")
fixed("C25","a964ae1","Document.Map was stale after Set replaced, Delete removed, Append panicked, the document was decoded over, or Elements was changed")
fixed("C25","c1312ae","DocumentMap.Validate accepted elements under keys that are not theirs")
fixed("C25","bdb8d0b","encoding an edited code with scope overwrote its length in the bytes the document was decoded from")
fixed("C25","439a9ee","ReaderArray of an edited array had elements without their index as key")
fixed("C25","2aa613a","editing a nested document of a copied element changed the original")
fixed("C25","8988502","Element.SetValue replaced the key of the element")
fixed("C25","c182dbc","AppendOmitEmpty left out every ObjectID")
fixed("C25","ff5611b","x/blist Document.Len recursed until the stack overflowed")
fixed("C26","5a3394a","events.Custom.Add accepts slices of bool, uint32 and uint64, which could not be marshalled: collectors refused the whole point")
fixed("C26","86ad446","ECE.Interface made elements that could not be encoded of elements, and errors of null values; nil documents and JSON that is no BSON caused panics")
fixed("C19","9653116","a key with a null byte was written as the bytes of other elements")
fixed("C26","9f7bb36","ReadSeries and the histogram's UnmarshalBSON crashed when no marshaler was registered")
fixed("C25","a5c2b3c","the map of a document went stale when its list of elements was changed after the map was built")
fixed("C20","5ac8613","a document that ends before its length says was accepted, and the rest of its bytes dropped")
fixed("C24","3a8913f","JSON values built from 32/64-bit integers and 32-bit floats did not convert to BSON, and their accessors panicked")
fixed("C24","36e5295","JSON documents holding nil documents, elements or values crashed the conversion and MarshalJSON")
fixed("C24","df41499","decimals whose significand has more than 34 digits, which stand for zero, were written to JSON as numbers that cannot be read back")
json.dump(F,open(os.path.join(os.path.dirname(__file__),'..','known_findings.json'),'w'),indent=1)
open(os.path.join(os.path.dirname(__file__),'..','known_findings.json'),'a').write("\n")
print(len(F),"findings")
