pub mod data;
pub mod io;
pub mod msg;
pub mod refs;
pub mod server;
pub mod sx;

harnesses! {
    h_total_command => msg::total_command,
    h_total_reply => msg::total_reply,
    h_total_email => msg::total_email,
    h_command => msg::command_diff,
    h_email => msg::email_diff,
    h_canonical => msg::canonical_localpart,
    h_round_trip => msg::round_trip,
    h_build_command => msg::build_command,
    h_reply_build => msg::reply_build,
    h_reply_code => msg::reply_code_limit,
    h_reply_parse => msg::reply_parse,
    h_chunks => msg::string_chunks,
    h_sink => data::sink,
    h_stream => data::stream,
    h_wire => data::wire,
    h_prependable => data::prependable,
    h_session => server::session,
    h_twice => server::twice,
    h_writers => msg::writers,
    h_parse_errors => msg::parse_errors,
    h_build_errors => msg::build_errors,
    h_join => msg::string_join,
}
