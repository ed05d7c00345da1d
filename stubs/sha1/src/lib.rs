//! Stand-in: sip-uac declares sha1 but uses nothing from it.
