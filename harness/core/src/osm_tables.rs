//! What tags of OpenStreetMap mean here (the reference, transcribed once from the documentation and the code).

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Use {
    Yes,
    No,
    /// only if drivers aren't picky
    Unpicky,
}
use Use::*;

pub struct Street {
    pub name: &'static str,
    pub lanes: u8,
    pub kmh: u16,
    /// car, bicycle, pedestrian
    pub usable: [Use; 3],
    pub tags: &'static [&'static str],
}

#[rustfmt::skip]
pub const STREETS: &[Street] = &[
    Street { name: "Motorway", lanes: 3, kmh: 130, usable: [Yes, No, No], tags: &["motorway"] },
    Street { name: "MotorwayLink", lanes: 1, kmh: 50, usable: [Yes, No, No], tags: &["motorway_link"] },
    Street { name: "Trunk", lanes: 2, kmh: 100, usable: [Yes, No, No], tags: &["trunk"] },
    Street { name: "TrunkLink", lanes: 1, kmh: 50, usable: [Yes, No, No], tags: &["trunk_link"] },
    Street { name: "Primary", lanes: 2, kmh: 100, usable: [Yes, Unpicky, No], tags: &["primary"] },
    Street { name: "PrimaryLink", lanes: 1, kmh: 30, usable: [Yes, Unpicky, No], tags: &["primary_link"] },
    Street { name: "Secondary", lanes: 1, kmh: 70, usable: [Yes, Unpicky, No], tags: &["secondary"] },
    Street { name: "SecondaryLink", lanes: 1, kmh: 30, usable: [Yes, Unpicky, No], tags: &["secondary_link"] },
    Street { name: "Tertiary", lanes: 1, kmh: 70, usable: [Yes, Yes, No], tags: &["tertiary"] },
    Street { name: "TertiaryLink", lanes: 1, kmh: 30, usable: [Yes, Yes, No], tags: &["tertiary_link", "traffic_calming", "unclassified_link"] },
    Street { name: "Unclassified", lanes: 1, kmh: 50, usable: [Yes, Yes, No], tags: &["give_way", "unclassified", "unclasified"] },
    Street { name: "Residential", lanes: 1, kmh: 50, usable: [Yes, Yes, Yes], tags: &["area:residential", "asphalt", "junction", "mini_roundabout", "residential"] },
    Street { name: "LivingStreet", lanes: 1, kmh: 15, usable: [Yes, Yes, Yes], tags: &["living_street"] },
    Street { name: "Service", lanes: 1, kmh: 20, usable: [No, Yes, Yes], tags: &["razed:service", "service;yes", "service", "sevice", "service2", "swervice"] },
    Street { name: "Track", lanes: 1, kmh: 30, usable: [Unpicky, Unpicky, Yes], tags: &["byway", "historic", "path;unclassified", "tra#", "track", "track;path", "trank", "track; cycleway; cycleway; track; track"] },
    Street { name: "Road", lanes: 1, kmh: 50, usable: [No, No, No], tags: &["4", "bridge", "fixme", "parking_aisle", "road", "yes"] },
    Street { name: "Cycleway", lanes: 1, kmh: 25, usable: [No, Yes, No], tags: &["cycleway", "bridleway"] },
    Street { name: "Pedestrian", lanes: 1, kmh: 5, usable: [No, Unpicky, Yes], tags: &["access_ramp", "access", "alley", "corridor", "crossing", "elevator", "footpath", "footway rad frei", "footway;service", "footway", "fo", "f", "pa", "pedestrian", "private_footway", "ramp", "schoolyard", "sidewalk", "stairs", "steps", "trail", "virtual", "vitrual", "yes;footway"] },
    Street { name: "Path", lanes: 1, kmh: 15, usable: [No, Unpicky, Yes], tags: &["informal_path", "ladder", "path---", "path;steps", "path", "path/cycleway", "pathless"] },
];

#[rustfmt::skip]
pub const UNUSED_TAGS: &[&str] = &["85", "abondoned", "abandoned:highway", "abandoned:path", "abandoned:service", "abandoned", "bus_guideway", "bus_stop", "bus", "busway", "centre_line", "climbing_access", "common", "under construction", "construction", "constuction", "demolished", "dismantled", "disused:track", "disused", "duckboards", "emergency_access_point", "emergency_bay", "escalator", "escape", "foot", "fuel", "in planung", "island", "layby", "loading_place", "lohwiese", "never_built", "nicht mehr in benutzung", "no", "none", "p", "passing_place", "piste", "place", "planned", "platform", "private", "project", "projected", "proposed", "raceway", "razed", "removed", "rest_area", "ser", "sere", "services", "stop_line", "stop", "street_lamp", "tidal_path", "traffic_island", "traffic_signals", "turning_circle", "turning_loop", "unused", "via_ferrata", "virtual_rail"];

#[rustfmt::skip]
pub const SPEEDS: &[(&str, u16)] = &[("de:motorway", 130), ("100, 70", 100), ("100; 50", 100), ("100;70;50", 100), ("100;70", 100), ("100;80", 100), ("100|70", 100), ("50; 100", 100), ("50;100", 100), ("60 mph", 100), ("50 mph", 80), ("60;80", 80), ("80;60", 80), ("70; 50", 70), ("50;70", 70), ("50; 70", 70), ("40 mph", 70), ("60;50", 60), ("20; 50", 50), ("30 mph", 50), ("30,50", 50), ("30; 50", 50), ("30;50", 50), ("50; 30", 50), ("50;30", 50), ("50b", 50), ("5ß", 50), ("de:urban", 50), ("maxspeed=50", 50), ("20 mph", 30), ("30 @ (mo-fr 06:00-18:00)", 30), ("30 kph", 30), ("30;10", 30), ("30; 40", 30), ("3ß", 30), ("conditional=30 @ (mo-fr 06:00-22:00)", 30), ("de:zone:30", 30), ("de:zone30", 30), ("zone:maxspeed=de:30", 30), ("15 mph", 25), ("2ß", 20), ("de:bicycle_road", 25), ("10 mph", 15), ("10#", 15), ("1ß", 15), ("3 mph", 15), ("4-6", 15), ("4-7", 15), ("5 mph", 15), ("6 km/h", 15), ("6,5", 15), ("7-10", 15), ("de:living_street", 15), ("de:walk", 15), ("schrittgeschwindigkeit", 15), ("walk", 15)];

/// the street's default is used
#[rustfmt::skip]
pub const DEFAULT_SPEEDS: &[&str] = &["*", "20:forward", "30+", "at:rural", "at:urban", "cz:urban", "de:274.1[30]", "de:rural", "de", "fixme:höchster üblicher wert", "hgv=30", "nome", "none", "posted time dependent", "signal", "signals", "variable"];

#[rustfmt::skip]
pub const ONEWAY: &[&str] = &["1", "left;through", "motor_vehicle", "recommended", "shelter", "use_sidepath", "yes + oneway:bicycle=no", "yes"];

#[rustfmt::skip]
pub const ONEWAY_REVERSE: &[&str] = &["´-1", "-1", "-1;no"];

#[rustfmt::skip]
pub const NOT_ONEWAY: &[&str] = &["alternating", "bicycle", "cycle_barrier", "fixme", "no", "reversible", "undefined", "unknown", "yes @ (2018 aug 0 - 2018 dec 21)", "yes;no"];
