// the tables the port activity application uses, for the SQL engine
export const portSchema = `
create table port_call_timestamp(id integer primary key, event_type text, event_time integer, event_time_confidence_lower text, event_time_confidence_lower_diff integer, event_time_confidence_upper text, event_time_confidence_upper_diff integer,
  event_source text, record_time integer, location_locode text, ship_mmsi integer, ship_imo integer, portcall_id integer, location_portarea text, location_from_locode text, source_id text,
  unique(ship_imo, event_source, location_locode, event_type, event_time, record_time, portcall_id));
create table vessel(mmsi integer, imo integer, name text, timestamp integer, ship_type integer);
create table port_call(port_call_id integer primary key, mmsi integer, imo_lloyds integer, vessel_name text, port_to_visit text, port_call_timestamp integer, radio_call_sign text);
create table port_area_details(port_area_details_id integer primary key, port_call_id integer, eta integer, etd integer, ata integer, atd integer, port_area_code text);
create table vessel_location(mmsi integer, sog real, nav_stat integer, modified integer);
create table pilotage(id integer primary key, vessel_imo integer, vessel_mmsi integer, vessel_eta integer, pilot_boarding_time integer, pilotage_end_time integer, schedule_updated integer, schedule_source text, state text, vessel_name text, start_code text, start_berth text, end_code text, end_berth text);
`;
