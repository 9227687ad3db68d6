#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), claim=True, reason=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                  observe=observe, claim=claim, reason=reason, note=note))


MSG, DD, SID, SET, SCH, NET, ACC, SES = ("src/message.rs", "src/data_dictionary.rs", "src/session/session_id.rs", "src/session/session_settings.rs",
                                    "src/session/session_schedule.rs", "src/network.rs", "src/io/acceptor.rs", "src/session/session_and_state.rs")

prop("C01", "Parsing any text as a message returns, bounded in time and memory",
     "Parsing any text as a FIX message against a dictionary returns a message or an error. It never panics, never fails to terminate, and never allocates far beyond the size of the text, whatever field counts the text declares.",
     ["inputs"], "every text", "The tests parse four well-formed messages; the peer chooses the text.",
     [MSG], [("Message::from_str", MSG), ("parse_header, parse_body, parse_trailer", MSG), ("parse_group", MSG)], observe=["result of Message::from_str"])
prop("C02", "An accepted message holds exactly the fields of its text",
     "When a text is accepted as a message, every field of the text is found in the section it belongs to (header, body, trailer, or its instance of a repeating group) with exactly the value the text gives it, and no other field is there. No field is lost, merged, trimmed or altered.",
     ["inputs"], "every accepted text", "The tests look at a few fields of four messages; a value containing '=', a repeated field or an unterminated last field is never tried.",
     [MSG], [("Message::from_str", MSG), ("FieldMap::set_field", MSG), ("parse_group", MSG)], observe=["get_field, get_group, iter of header, body and trailer"])
prop("C03", "Well-formed messages are accepted, malformed ones rejected",
     "A text is rejected when its first three fields are not begin string, body length and message type in this order, when a field is not a decimal tag, '=' and a non-empty value, when a tag occurs twice in a section, when a header field follows a body field, or when a header or body field follows a trailer field. A text free of these faults and of faulty repeating groups is accepted, with its header, body and trailer fields in any order within their section.",
     ["inputs"], "every text", "The tests contain no malformed message.",
     [MSG], [("Message::from_str", MSG), ("parse_header, parse_body, parse_trailer", MSG)], observe=["result of Message::from_str"])
prop("C04", "Repeating groups parse to the declared instances or are rejected",
     "A repeating group of the header or of the message's body, nested groups included, is accepted exactly when its count is a number equal to the number of instances that follow, each instance starts with the group's first field, and the other members come at most once each in the dictionary's order. An accepted group holds the instances in the order of the text, each with exactly its own members and nested groups, and the first field that is not a member ends it.",
     ["inputs"], "every sequence of group members and counts, over header, body and nested groups", "Tests cover three correct groups; wrong counts, misplaced members and empty groups are never tried.",
     [MSG, DD], [("parse_group", MSG), ("DataDictionary::get_msg_group", DD), ("FieldMap::set_group", MSG)], observe=["result of Message::from_str", "get_group of the parsed message"])
prop("C05", "Serialised messages are framed and ordered as FIX requires",
     "The text of a message starts with begin string, body length and message type, then the rest of the header, the body and the trailer, with the checksum as the last field, in whatever order the fields were set. Every repeating group is its count followed directly by its instances in order, each starting with the group's first field and holding its own members and nested groups.",
     ["inputs", "histories"], "every message and order of setting its fields, under every iteration order of the underlying maps", "No test serialises a message; the order depends on the random seed of the hash maps.",
     [MSG], [("Display for Message", MSG), ("FieldMapIter", MSG), ("FieldMap::with_field_order", MSG), ("FieldMap::set_group", MSG)], observe=["to_string of a message"])
prop("C06", "Body length and checksum of a completed message are right",
     "After body length and checksum are set, in this order, the body length field of the message's text is the number of bytes after that field up to the checksum field, and the checksum is the sum of all bytes before it modulo 256 in three digits, groups and non-ASCII values included. Setting them again after a change, or over stale values, gives the values of the new content.",
     ["inputs", "histories"], "every message", "No test computes a checksum or body length.",
     [MSG], [("Message::set_checksum, calc_checksum", MSG), ("Message::set_body_len, calc_body_len", MSG)], observe=["to_string of a message"])
prop("C07", "Serialising and parsing are inverse",
     "Serialising a message that conforms to the dictionary and parsing the text gives a message with the same fields and values in every section and group instance. This holds for messages that were parsed and for messages built field by field, under every iteration order of the underlying maps.",
     ["inputs", "histories"], "every conforming message", "No test serialises a message.",
     [MSG], [("Display for Message", MSG), ("Message::from_str", MSG), ("FieldMap::set_group", MSG)], observe=["Message::from_str of to_string"])
prop("C08", "A message field reads back as what was last set",
     "Reading a field gives the value last set for this tag in the same section, converted to the requested type, or an error when none was set or the conversion fails; it never panics and never depends on other tags or sections. Setting a group gives it exactly the requested number of empty instances, each independent of the others, and replaces an earlier group and its count.",
     ["histories", "inputs"], "every history of settings and readings", "Tests only read fields of parsed messages.",
     [MSG], [("FieldMap::set_field, get_field", MSG), ("FieldMap::set_group", MSG), ("Message::set_field, get_field", MSG)], observe=["get_field, get_group, iter"])
prop("C09", "The session of a wire message is read from its own identifying fields",
     "The session read from a message's text has as parts the values of its begin string, sender, target, sub and location id fields, wherever they stand, an absent or empty optional field being absent, and no other field or value content is mistaken for one of them. The reversed session is the same with sender and target parts exchanged. Neither panics on any text.",
     ["inputs"], "every text", "No test reads a session from a message.",
     [MSG, SID], [("Message::get_session_id, get_reverse_session_id", MSG), ("extract_field_value", MSG)], observe=["the session id's parts"])
prop("C10", "Session ids are equal exactly when all their parts are",
     "Two session ids are equal exactly when begin string, sender and target ids, sub ids, location ids and qualifier are all equal, an empty optional part being the same as none; equal ids hash and print alike, and an id gives back the parts it was built from. Its printed form starts with BEGIN:SENDER[/SUB][/LOCATION]->TARGET[/SUB][/LOCATION]. An id made from configuration takes each such part from the session's own section, else from the defaults, and a map keyed by ids finds each session under its own id only.",
     ["inputs", "configurations"], "every combination of parts", "No test compares or builds a session id.",
     [SID, NET], [("SessionId, SessionIdBuilder::build", SID), ("SessionId::from_map", SID), ("SessionMap", NET)], observe=["==, hash, Display, lookup"])
prop("C11", "A session's settings are its own, else the defaults",
     "Reading a setting of a session gives the value of the session's own section when it is there and the value of the defaults otherwise, converted to the requested type; an empty value counts as given, a setting given in neither is reported as absent, and one that does not convert is never given a value. No setting is taken from another session or from another key, a getter asked for the own section alone or for the defaults alone answers from there only, and an id that is not configured has the defaults only.",
     ["configurations", "inputs"], "every configuration and every setting", "The tests read one configuration; layering over several sessions is never tried.",
     [SET], [("Properties::get_property, get_optional_config, get_or_default_config, get_config, get_default_config", SET)], observe=["the getters of Properties"])
prop("C12", "A configuration is accepted only with every required setting valid",
     "A configuration is rejected when the connection type is missing or unknown, when the settings this type requires are missing or invalid, or when any session lacks a begin string, sender or target id in both its own section and the defaults; with these settings present and valid it is accepted.",
     ["configurations", "inputs"], "every configuration", "The tests read one correct configuration.",
     [SET, SID], [("Properties::new, from_str", SET), ("SessionId::from_map", SID), ("ConnectionType", SET)], observe=["result of Properties::from_str"])
prop("C13", "Every session section becomes one session",
     "Reading a configuration gives exactly one session per session section, which is any section but the defaults, each with its own settings. The defaults must come first and once; a duplicate session, a malformed section header and a line of a section that is not a setting are rejected. Blank lines, white space around keys, values and headers, and line ends of either kind change nothing, and a quoted or unquoted value is taken as written.",
     ["configurations", "inputs"], "every sequence of sections and lines", "The tests read one configuration of fixed layout.",
     [SET], [("Properties::new, from_str", SET), ("Properties::session_ids", SET)], observe=["session_ids, get_property, result of Properties::from_str"])

prop("C14", "A daily session is open exactly from its start to its end time",
     "A session with a daily start and end time is open at an instant exactly when the time of day of this instant in the session's time zone lies between the start and the end time, both included; when the end is before the start the session runs over midnight. This holds at every instant, in every zone, on days when summer time begins or ends too, and asking never panics.",
     ["inputs"], "every start time, different end time, time zone and instant", "The tests ask a few schedules for the present moment, whenever they run.",
     [SCH], [("SessionSchedule::is_in_session, is_in_daily", SCH)], observe=["is_in_session at a given clock"])
prop("C15", "A weekly session is open exactly from its start to its end within the week",
     "A session with a start day and time and an end day and time is open at an instant exactly when day and time of this instant in the session's zone lie between the two, both included, going forward from the start; a session may run over the end of the week. It holds at every instant, in every zone, on days when summer time begins or ends too, and asking never panics.",
     ["inputs"], "every start and end day and time, time zone and instant", "The tests ask a few schedules for the present moment, whenever they run.",
     [SCH], [("SessionSchedule::is_in_session, is_in_weekly", SCH)], observe=["is_in_session at a given clock"])
prop("C16", "A session's schedule is the one its settings give",
     "The schedule of a session takes start and end time, start and end day and time zone each from the session's own settings, else from the defaults, the zone being UTC when none is given. A session without times is always open; incomplete or unreadable settings are refused. No schedule that was accepted panics when asked, whatever the zone's summer time does to its times, and whether the present time of day lies between two times in a zone is answered for that zone.",
     ["configurations", "inputs"], "every combination of settings, zone and instant", "The tests create a few schedules from one configuration.",
     [SCH, SET], [("SessionSchedule::new", SCH), ("is_current_time_between", SCH)], observe=["SessionSchedule::new", "is_in_session, is_current_time_between at a given clock"])
prop("C17", "Messages have the fields and required fields their description gives",
     "A dictionary read from a description gives every message, the header and the trailer exactly the fields the description lists for it, directly or through components at any depth, groups counting as their count field. A field is required exactly when it and the innermost component that brings it are required. No message, header or trailer gets a field of another.",
     ["configurations"], "every description", "The tests look at a few messages of one description.",
     [DD], [("DataDictionary::from_str", DD), ("add_xml_message, add_xml_component, add_xml_group", DD)], observe=["is_msg_field, is_msg_req_field, get_msg_fields, get_msg_required_field, is_header_field, is_trailer_field"])
prop("C18", "Repeating groups have the members, order and delimiter their description gives",
     "A dictionary read from a description gives every message and the header exactly the repeating groups the description lists for it, directly or through components. At every depth a group has exactly its own members in the order of the description, components expanded in place, its first field as delimiter, and its nested groups; equally numbered groups of different messages are independent.",
     ["configurations"], "every description", "The tests look at a few groups of one description.",
     [DD], [("DataDictionary::from_str", DD), ("add_xml_group", DD), ("get_msg_group, get_ordered_fields", DD)], observe=["is_msg_group, get_msg_group, get_ordered_fields, GroupInfo::delimiter"])
prop("C19", "A faulty description of a dictionary is rejected, never a panic",
     "Reading any text as a dictionary returns a dictionary or an error, without panic and in bounded time. It is an error when a section or an attribute is missing or empty, a field number is not a number, a field, group or component is used that is not defined, an element is unknown, a field, value, message or component is defined twice, a message or group gets a field twice, or a component contains itself. A description without such a fault is accepted.",
     ["inputs", "configurations"], "every text", "The tests try a few faults, each alone in one place.",
     [DD], [("DataDictionary::from_str", DD), ("get_attribute, lookup_node, get_component_nodes_by_name", DD)], observe=["result of DataDictionary::from_str"])
prop("C20", "Messages come out of a connection as they were sent",
     "However the bytes of a connection arrive, in pieces of any size and at any time, each message is handed on exactly once, in the order sent, byte for byte, a message ending with the field that begins with 10=. Connections open at the same time do not mix, and each message reaches the application for the session it is for.",
     ["schedules", "inputs"], "every byte stream and every division of it into pieces", "No test opens a connection.",
     [ACC, NET], [("IoAcceptor::start", ACC), ("read_message", ACC), ("start_receiver_task", NET)], observe=["the channel of IoAcceptor", "Application::from_app"])
prop("C21", "No peer can stop the engine or make it spin",
     "Whatever one connection does - closing at any point of a message, with or without unread answers, sending faulty messages or messages of unknown sessions - good messages on this and other connections are still handled and answered, faulty ones are not handed to the application, and nothing runs when there is nothing to do. Connections that arrive together are all served, and a port in use at the start is taken once it is free.",
     ["schedules", "inputs", "fault_sequences"], "every point of failure and every faulty message", "No test opens a connection.",
     [ACC, NET, SES], [("IoAcceptor::start", ACC), ("start_socket_listener_task, start_app_listner_task", ACC), ("start_receiver_task", NET), ("Session::sync_send_to_target", SES)],
     observe=["connections", "Application::from_app", "processor time"])
prop("C22", "Messages sent to a session come out of its connection, complete and in order",
     "A message the application sends to a session is written to the connection of that session exactly once, complete and unaltered, in the order of sending, and to no connection of another session. A message sent while the session is not connected is dropped without harm and is not delivered to a later connection.",
     ["schedules", "histories"], "every history of connections and messages sent", "No test opens a connection.",
     [NET, ACC, SES], [("SocketAcceptor::start_accepting_connections", NET), ("start_app_listner_task", ACC), ("Session::sync_send_to_target", SES)], observe=["the bytes a connection receives"])
prop("C23", "Fields have the types and values their definitions give",
     "The type a dictionary gives a field is the one its definition names, a name that is no FIX type giving the unknown type, and a type prints the name it is read from. The values of a field are exactly those its definition lists; a field without listed values, or not defined, has none, and a field not defined has no type.",
     ["configurations", "inputs"], "every type name and every set of field definitions", "The tests look at the fields of one description.",
     [DD], [("FixType::from_str, Display", DD), ("add_fields_and_values", DD), ("get_field_type, get_field_values", DD)], observe=["get_field_type, get_field_values, FixType::to_string"])
prop("C24", "The sending time is the present time in UTC",
     "Setting the sending time of a message puts the present time in UTC, as YYYYMMDD-HH:MM:SS.mmm with the milliseconds cut, not rounded, into field 52 of its header, replacing an earlier one, and changes nothing else. This holds at every instant, leap days and year ends included.",
     ["inputs"], "every instant", "No test sets a sending time, and a test runs at one instant only.",
     [MSG], [("Message::set_sending_time", MSG)], observe=["field 52 of the header"])
prop("C25", "A session's messages are read by its own data dictionary",
     "A session is made with the data dictionary its own settings name, else the one the defaults name, else the FIX 4.3 one of the resources, and every message it receives is read by this dictionary, whatever the other sessions use. A session whose dictionary can not be read, or whose heartbeat interval or reset settings do not convert, is refused; the other sessions are not affected by its settings.",
     ["configurations", "histories"], "every configuration of sessions and every history of messages", "The tests use one dictionary and make no session.",
     [SES, NET], [("Session::with_settings", SES), ("create_sessions", NET), ("start_receiver_task", NET)], observe=["Session::data_dictionary", "Application::from_app"])
prop("C26", "A message is rejected for the fault it has",
     "The error for a text with a single fault names it: an invalid tag for a field that is no tag with '=', a tag without value, a tag that appears more than once in a section or group instance, a tag out of order for a field outside its section or first three fields out of place, a wrong data format for a group count that is no number, an incorrect group count for one that is not the number of instances, a group out of order, and a required tag missing or incorrect count for an instance without its first field.",
     ["inputs"], "every text with one fault", "The tests contain no malformed message.",
     [MSG, "src/quickfix_errors.rs"], [("Message::from_str", MSG), ("parse_header, parse_body, parse_trailer, parse_group", MSG), ("SessionRejectError", "src/quickfix_errors.rs")], observe=["Display of the error of Message::from_str"])
prop("C27", "A faulty dictionary description is rejected for the fault it has",
     "The error for a description with a single fault is of the kind of this fault and names it, as does its text: no XML; a section, field or component that is missing or not defined; an attribute that is missing or empty; a field number that is no number; an unknown element; a field, value, message or component defined twice, or a field brought twice to a message, section or group; a component that contains itself.",
     ["inputs"], "every description with one fault", "The tests try a handful of faults, each at one place.",
     [DD, "src/quickfix_errors.rs"], [("DataDictionary::from_str", DD), ("get_attribute, lookup_node, lookup_field_num_with_name", DD), ("XmlError", "src/quickfix_errors.rs")], observe=["the error of DataDictionary::from_str and its Display"])
prop("C28", "The default application answers every accepted message with one logon",
     "Run with the default application, the engine answers every message it accepts with exactly one logon on the connection of the message's session, complete, with the present time as sending time and with right body length and checksum, itself readable as a message. A message that is rejected gets no answer.",
     ["histories", "inputs"], "every history of messages on the connections of several sessions, at every instant", "The tests start no acceptor and answer no message.",
     ["src/application.rs", MSG, NET], [("DefaultApplication::from_app", "src/application.rs"), ("test_logon", MSG), ("start_receiver_task", NET)], observe=["the bytes each connection receives"])
prop("C29", "Every session is served at its configured port",
     "Once started, the acceptor listens at the port of every session, its own one or that of the defaults, and at no other; a session's messages are taken and answered there, whether sessions share a port or have one each.",
     ["configurations"], "every configuration of sessions and ports", "The tests start no acceptor.",
     [NET, ACC], [("SocketAcceptor::start_accepting_connections", NET), ("IoAcceptor::start", ACC)], observe=["listening sockets", "Application::from_app", "the bytes each connection receives"])
prop("C30", "The session map is one map of the configured sessions, free to use",
     "The map handed to the application holds every configured session under its id and no other. A session put into it, changed or added through any copy of it is found and listed through all copies as it was last put. The application may look up, list, change and send to any session, from within the handling of a message or from another thread, without blocking or losing messages; what is sent to a session that is not in the map, or has no socket, goes nowhere and does no harm.",
     ["histories"], "every history of operations on the map and every use of it while messages are handled", "The tests put no session into a map and run no application.",
     [NET, "src/session/session_and_state.rs"], [("SessionMap", NET), ("start_receiver_task", NET), ("Session::sync_send_to_target", "src/session/session_and_state.rs")], observe=["SessionMap::get_session", "SessionMap::key_values_map", "the bytes each connection receives"])

NA = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                            "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 /verif/run.py setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 /verif/run.py check %s quick" % p["id"],
            "thorough_cmd": "python3 /verif/run.py check %s thorough" % p["id"],
            "technique": "symbolic execution of the LLVM IR compiled from the repository's source, assertions decided by z3 over all inputs within the bounds; counterexamples replayed on a native build",
            "level": "model_checking",
            "level_note": (p["note"] + " " if p["note"] else "") + "exhaustive within the bounds stated per harness in the evidence; nothing is claimed beyond them",
        } for p in P if p["claim"]],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claim"]],
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
