import json,subprocess
log=dict((l.split(' ',1)[1],l.split(' ',1)[0]) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines())
def h(sub):
    m=[v for k,v in log.items() if sub in k]
    assert len(m)==1,(sub,m); return m[0]
F=[
('A02','entity metadata updates must not change','an EntityUpdate carrying Meta.Locked=false unlocked a locked entity'),
('C03','entity metadata updates must not change','EntityUpdate could change Locked and KV data, which are not metadata fields'),
('F02','entity metadata updates must not change','EntityUpdate without metadata dereferenced nil and crashed the server'),
('B04','group metadata updates must not change','a GroupUpdate carrying Capabilities granted them without GLOBAL_ROOT'),
('C04','group metadata updates must not change','GroupUpdate could change rules, capabilities, untyped metadata and KV'),
('F02','group update without a group','GroupUpdate without a group crashed the server'),
('F02','token request without an entity','AuthGetToken without an entity crashed the server'),
('B03','delegated group management works','members of the managing group were refused'),
('B02','delegated group management works','delegated managers could mutate a read-only server'),
('B01','delegated group management works','a bad token was accepted for delegated management'),
('E01','membership requests naming several groups','a fault between two groups of one request left half of it applied'),
('B01','membership requests naming several groups','one group of a membership request was applied although another was not authorised'),
('E07','bitcask faults','read, write and key-listing faults were reported as absence or success'),
('C01','bitcask faults','a read fault let creation overwrite an existing object'),
('F10','bitcask faults','a corrupt record was reported as absent'),
('C01','creation must not overwrite','creation overwrote an object that could not be read'),
('C02','automatic numbers must not overflow','the number after 2147483647 was negative'),
('C08','names with path separators','a name such as ../groups/x reached objects in another namespace'),
('A07','names with path separators','EntityInfo of ../groups-style names returned redaction-free data'),
('D03','rules conflict only','an include was refused because an exclude of another group exists'),
('D04','removing a rule removes only','DROP of a rule removed rules whose text contains the name'),
('D03','a group must not include','a group including itself was accepted'),
('F02','a group must not include','a group including itself caused unbounded recursion'),
('C05','group key/value requests','ADD on an existing and DEL on a missing group key returned the wrong status'),
('C07','public keys are matched exactly','removing a key removed other keys that contain it'),
('D01','removed rules must not be followed','a rule that was removed was still followed when membership changed'),
('D03','removed rules must not be followed','removing then reversing a rule recursed without bound'),
('F02','removed rules must not be followed','removing then reversing a rule recursed without bound'),
('E03','resolver reads of shared maps','resolver maps were read without the lock'),
('C09','destroying a group must not leave','members of a destroyed group stayed members of groups that include it'),
('D01','destroying a group must not leave','members of a destroyed group stayed members of groups that include it'),
('D05','destroying a group must not leave','after destroying an included group and restarting, listings failed'),
('E02','concurrent changes to the same object','two overlapping changes to one entity or group were both acknowledged and one was lost'),
('C02','concurrent changes to the same object','two concurrent creations could be given the same automatic number'),
('D03','concurrent changes to the same object','two concurrent rule changes could form a cycle'),
('E02','a secret change must not race','an administrator reset of a secret could be undone by a change whose check of the old secret came before it'),
('A05','a secret change must not race','a secret could be changed with a secret that was no longer the current one'),
('E04','the memory store must not announce','a change under /entitiesx was announced as a change of an entity'),
('E06','a crash while writing','a temporary file left in the namespace directory by a crash showed up as a phantom object'),
('E05','a crash while writing','temporary files were written outside the data directory'),
('E09','a cached token must be private','a token was written into an existing file readable by everybody'),
('E09','cached tokens of different owners','owners such as ./x and x shared a file, ../x reached outside the cache directory'),
('E08','nsutil must not truncate the target when','an unreadable source copied with truncate emptied the target'),
('E08','nsutil must not truncate a store that is copied onto itself','copying a store onto itself with truncate destroyed it'),
('F06','untyped metadata without a separator','an entry without a separator crashed the client'),
('F05','client must not crash on an empty answer','EntityInfo/GroupInfo panicked on an empty answer'),
('F05','client must not truncate requested numbers','a number outside 32 bits was sent as another number'),
('F08','empty key/value data must survive','an entity with an empty key/value string could not be updated or authenticated with any plugin loaded'),
('F02','a plugin that did not start must not crash the health check','a status request crashed the server when a plugin had failed to start'),
('F03','a plugin that did not start must not crash the health check','a status request crashed the server when a plugin had failed to start'),
('F09','fail2lock defaults must apply','configuring only one setting made the other zero: every login refused, or no failure ever counted'),
('F09','fail2lock must cope with entities that have no','the first login of an entity without metadata ended the plugin'),
('F09','fail2lock must not access its failures','concurrent logins ended the plugin (concurrent map access)'),
('F09','a pending fail2lock reset','while a reset was pending the number of failures was unlimited'),
('A04','a token must not name another','the token of an entity whose name is not UTF-8 named a different entity'),
('F10','an unreadable group must not appear as an empty','the groups of an entity contained an empty entry for each unreadable group'),
('F10','listing the members of a group that does not exist','listing the members of an unreadable or missing group returned an empty list'),
('F10','an unreadable group must not lift','after a restart an excluded but unreadable group no longer excluded its members'),
('G03','a plugin that could not be used must be stopped','a plugin process that served something else was never stopped'),
('A01','secrets that bcrypt cannot tell apart','a presented secret that equals the stored one in its first 72 bytes, or repeats it after a NUL byte, authenticated'),
('F12','accept the modes and capabilities','netauth system capability refused modes and capabilities in lower case, although its own check and example use them'),
('F12',"don't use the secret of the request as the new","with --secret (or NETAUTH_SECRET) entity create and auth change-secret silently set that secret"),
('F12','an empty initial secret can be asked for','entity create --initial-secret "" prompted, although documented to give an empty secret'),
('F12',"don't go on without the secret","when the secret could not be read, requests were made with an empty one"),
('F12','report commands that are not understood','commands that were not understood ended with status 0'),
('F12','a client without the key','a client without the key to check tokens crashed on its second use'),
('F06','a read of an indexed key by the client','reading an indexed key such as phone{0} through the client returned no values'),
('F06','keys of a type given in lower case','reading public keys of a type given in lower case returned none, although adding and removing take any case'),
('A08','in-memory store must not write stored values to the log','the in-memory store wrote every value read or written, with the secured secrets, to the trace log'),
('E05','list keys when the data path contains pattern characters','with pattern characters such as [ in the data path the filesystem store listed no keys, so numbers in use were given out again'),
]
import sys
with open('/verif/known-findings.jsonl','w') as f:
    for p,s,w in F:
        c=h(s)
        f.write(json.dumps({"status":"fixed","property":p,"commit":c,"what":w,"line":"fixed: property=%s %s %s"%(p,c,w)})+"\n")
