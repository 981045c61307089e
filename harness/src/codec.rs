//! Evaluates the library's pure functions (frame codecs, addresses, datapoint types) on given
//! arguments and records the results.
use knx_ip_client::dp_types::*;
use knx_ip_client::packets::addresses::*;
use knx_ip_client::packets::apdu::*;
use knx_ip_client::packets::core::*;
use knx_ip_client::packets::emi::*;
use knx_ip_client::packets::tpdu::*;
use knx_ip_client::packets::tunneling::*;
use knx_ip_client::transport::udp::{parse_response, TunnelingResponse};
use std::io::{Cursor, Write};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::panic::{catch_unwind, AssertUnwindSafe};

type R = Option<(Vec<i64>, Vec<i64>)>; // fields, bytes of the encoded value

fn i(b: &[u8]) -> Vec<i64> {
    b.iter().map(|x| *x as i64).collect()
}

fn u(b: &[i64]) -> Vec<u8> {
    b.iter().map(|x| *x as u8).collect()
}

fn hpai(h: &HPAI) -> Vec<i64> {
    let mut v = vec![h.host_protocol_code as i64];
    v.extend(i(&h.address.ip().octets()));
    v.push(h.address.port() as i64);
    v
}

fn mk_hpai(a: &[i64]) -> HPAI {
    HPAI {
        host_protocol_code: a[0] as u8,
        address: SocketAddrV4::new(Ipv4Addr::new(a[1] as u8, a[2] as u8, a[3] as u8, a[4] as u8), a[5] as u16),
    }
}

fn ldata(l: &LData) -> Vec<i64> {
    vec![
        l.src as i64,
        l.dest as i64,
        l.frame_type as i64,
        l.repetition as i64,
        l.system_broadcast as i64,
        l.ack_request as i64,
    ]
}

fn dib_fields(d: &DIB) -> Vec<i64> {
    let mut v = vec![d.structure_length() as i64];
    match d {
        DIB::DeviceInformation(d) => {
            v.extend([d.description_type_code as i64, d.knx_medium as i64, d.knx_device_status.bits() as i64]);
            v.extend([d.knx_individual_address.to_u16() as i64, d.project_installation_identifier as i64]);
            v.extend(i(&d.serial_number));
            v.extend(i(&d.routing_multicast_address.octets()));
            v.extend(i(&d.mac_address));
            v.extend(i(&d.friendly_name));
            v.extend(d.friendly_name().unwrap_or_default().chars().map(|c| c as i64));
        }
        DIB::SupportedServiceFamilies(s) => {
            v.push(s.description_type_code as i64);
            for f in &s.service_families {
                v.extend([f.service_family as i64, f.version as i64]);
            }
        }
        DIB::IpConfig(c) => {
            v.push(c.description_type_code as i64);
            v.extend(i(&c.ip_address.octets()));
            v.extend(i(&c.subnet_mask.octets()));
            v.extend(i(&c.default_gateway.octets()));
            v.extend([c.ip_capabilities as i64, c.ip_assignment_method as i64]);
        }
        DIB::IpCurrentConfig(c) => {
            v.push(c.description_type_code as i64);
            v.extend(i(&c.current_ip_address.octets()));
            v.extend(i(&c.current_subnet_mask.octets()));
            v.extend(i(&c.current_default_gateway.octets()));
            v.extend(i(&c.dhcp_server.octets()));
            v.extend([c.current_ip_assignment_method as i64, c.reserved as i64]);
        }
        DIB::KNXAddresses(k) => {
            v.push(k.description_type_code as i64);
            v.push(k.knx_individual_address.to_u16() as i64);
            v.extend(k.additional_individual_addresses.iter().map(|a| a.to_u16() as i64));
        }
        DIB::ManufacturerData(m) => {
            v.push(m.description_type_code as i64);
            v.push(m.knx_manufacturer_id as i64);
            v.extend(i(&m.manufacturer_specific_data));
        }
    }
    v
}

fn feature(f: i64) -> KnxIpFeature {
    match f {
        2 => KnxIpFeature::MaskVersion,
        6 => KnxIpFeature::IndividualAddress,
        7 => KnxIpFeature::MaxApduLength,
        _ => KnxIpFeature::InfoServiceEnable,
    }
}

fn dec(op: &str, b: &[u8]) -> R {
    let mut c = Cursor::new(b);
    macro_rules! pos {
        ($v:expr) => {{
            let mut v: Vec<i64> = $v;
            v.push(c.position() as i64);
            v
        }};
    }
    Some(match op {
        "d.hdr" => {
            let h = KnxNetIpHeader::from_packet(&mut c).ok()?;
            (pos!(vec![h.service_type_identifier as i64, h.total_length as i64]), i(&h.packet()))
        }
        "d.hpai" => {
            let h = HPAI::from_packet(&mut c).ok()?;
            (pos!(hpai(&h)), i(&h.packet()))
        }
        "d.crd" => {
            let h = CRD::from_packet(&mut c).ok()?;
            (pos!(vec![]), i(&h.packet()))
        }
        "d.connresp" => {
            let h = ConnectionResponse::from_packet(&mut c).ok()?;
            let mut v = vec![h.get_communication_channel_id() as i64, h.get_status() as i64];
            v.extend(hpai(&h.get_data_endpoint()));
            v.extend(i(&DisconnectRequest::from_connection_response(&h).packet()));
            v.extend(i(&ConnectionstateRequest::from_connection_response(&h).packet()));
            (v, i(&h.packet()))
        }
        "d.csreq" => {
            let h = ConnectionstateRequest::from_packet(&mut c).ok()?;
            let mut v = vec![h.communication_channel_id as i64];
            v.extend(hpai(&h.control_endpoint));
            (v, i(&h.packet()))
        }
        "d.csresp" => {
            let h = ConnectionstateResponse::from_packet(&mut c).ok()?;
            (vec![h.communication_channel_id as i64, h.status as i64], i(&h.packet()))
        }
        "d.disreq" => {
            let h = DisconnectRequest::from_packet(&mut c).ok()?;
            (i(&DisconnectResponse::from_disconnect_request(&h).packet()), i(&h.packet()))
        }
        "d.disresp" => {
            let h = DisconnectResponse::from_packet(&mut c).ok()?;
            (vec![h.communication_channel_id as i64, h.status as i64], i(&h.packet()))
        }
        "d.sreq" => {
            let h = SearchRequest::from_packet(&mut c).ok()?;
            (vec![], i(&h.packet()))
        }
        "d.sresp" => {
            let h = SearchResponse::from_packet(&mut c).ok()?;
            (crate::run::search_flat(&h), i(&h.packet()))
        }
        "d.dib" => {
            let h = DIB::from_packet(&mut c).ok()?;
            (pos!(dib_fields(&h)), i(&h.packet()))
        }
        "d.tunreq" => {
            let h = TunnelingRequest::from_packet(&mut c).ok()?;
            let mut v = vec![h.communication_channel_id as i64, h.sequence_nr as i64];
            v.extend(i(h.get_cemi()));
            (v, i(&h.packet()))
        }
        "d.ack" => {
            let h = TunnelingAck::from_packet(&mut c).ok()?;
            (
                vec![h.communication_channel_id as i64, h.sequence_nr as i64, h.status as i64],
                i(&h.packet()),
            )
        }
        "d.featresp" => {
            let h = FeatureResp::from_packet(&mut c).ok()?;
            (
                vec![
                    h.communication_channel_id as i64,
                    h.sequence_nr as i64,
                    h.feature as i64,
                    h.status as i64,
                    h.value as i64,
                ],
                i(&h.packet()),
            )
        }
        "d.cemi" | "d.con" | "d.ind" => {
            let h = CEMI::from_packet(&mut c).ok()?;
            match op {
                "d.con" => {
                    let l = LDataCon::from_cemi(h).ok()?;
                    let mut v = ldata(&l.l_data);
                    v.push(l.confirm as i64);
                    v.push(l.cemi.msg_code as i64);
                    (v, vec![])
                }
                "d.ind" => {
                    let l = LDataInd::from_cemi(h).ok()?;
                    let mut v = ldata(&l.l_data);
                    v.push(l.apci as i64);
                    v.push(l.cemi.msg_code as i64);
                    v.extend(i(&l.value));
                    (v, vec![])
                }
                _ => {
                    let mut v = vec![h.msg_code as i64, h.additional_infos.len() as i64];
                    for a in h.additional_infos {
                        v.push(a.value.len() as i64);
                        let value = a.value;
                        v.push(a.info_type as i64);
                        v.extend(i(&value));
                    }
                    v.extend(i(&h.service_info));
                    (v, vec![])
                }
            }
        }
        "d.parse" => match parse_response(b.to_vec()).ok()? {
            TunnelingResponse::TunnelingRequest(h) => {
                let mut v = vec![1, h.communication_channel_id as i64, h.sequence_nr as i64];
                v.extend(i(h.get_cemi()));
                (v, vec![])
            }
            TunnelingResponse::TunnelingAck(h) => (vec![2, h.communication_channel_id as i64, h.sequence_nr as i64, h.status as i64], vec![]),
            TunnelingResponse::FeatureResponse(h) => (vec![3, h.communication_channel_id as i64, h.sequence_nr as i64], vec![]),
            TunnelingResponse::ConnectionstateResponse(h) => (vec![4, h.communication_channel_id as i64, h.status as i64], vec![]),
            TunnelingResponse::DisconnectResponse(h) => (vec![5, h.communication_channel_id as i64, h.status as i64], vec![]),
            TunnelingResponse::DisconnectRequest(h) => (vec![6], i(&h.packet())),
        },
        _ => panic!("unknown op {}", op),
    })
}

fn apdu(a: &[Vec<i64>]) -> APDU {
    // a[0] = [form]: 0 read, 1 write small, 2 write big, 3.. datapoint values
    let d = u(&a[1]);
    match a[0][0] {
        0 => APDU::group_value_read(),
        1 => APDU::group_value_write(d, true),
        2 => APDU::group_value_write(d, false),
        3 => APDU::group_value_write_pd(<PdtKnxBit as Pdt<bool>>::general(d[0] != 0)),
        4 => APDU::group_value_write_pd(<PdtKnxB1U3 as Pdt<u8>>::general(d[0])),
        5 => APDU::group_value_write_pd(<PdtKnxByte as Pdt<u8>>::general(d[0])),
        6 => APDU::group_value_write_pd(<PdtKnxScaledValue as Pdt<u8>>::general(d[0])),
        7 => APDU::group_value_write_pd(<PdtKnxWord as Pdt<u16>>::general(u16::from_be_bytes([d[0], d[1]]))),
        8 => APDU::group_value_write_pd(<PdtKnxULong as Pdt<u32>>::general(u32::from_be_bytes([d[0], d[1], d[2], d[3]]))),
        9 => APDU::group_value_write_pd(<PdtKnxInt as Pdt<i16>>::general(i16::from_be_bytes([d[0], d[1]]))),
        10 => APDU::new(APCI::a_group_value_write(), APDUData::Small(d[0])),
        11 => APDU::new(APCI::a_group_value_read(), APDUData::Big(d)),
        _ => panic!("unknown apdu form"),
    }
}

fn families(length: u8, d: &[u8]) -> SupportedServiceFamiliesDIB {
    SupportedServiceFamiliesDIB {
        structure_length: length,
        description_type_code: DescriptionTypeCode::SupportedServiceFamilies,
        service_families: d.chunks(2).map(|x| ServiceFamily { service_family: x[0], version: x[1] }).collect(),
    }
}

fn enc(op: &str, a: &[Vec<i64>]) -> R {
    let b = |n: usize| a[0][n] as u8;
    let bytes = match op {
        "e.connreq" => match b(0) {
            0 => ConnectionRequest::tunnel().packet(),
            _ => ConnectionRequest::busmonitor().packet(),
        },
        "e.cri" => match b(0) {
            0 => CRI::tunnel_linklayer().packet(),
            1 => CRI::tunnel_raw().packet(),
            _ => CRI::tunnel_busmonitor().packet(),
        },
        "e.hpai" => match b(0) {
            0 => HPAI::udp().packet(),
            1 => HPAI::tcp().packet(),
            _ => {
                let mut h = HPAI::udp();
                h.set_addr(mk_hpai(&a[1]).address);
                h.packet()
            }
        },
        "e.csreq" => ConnectionstateRequest::new(b(0), mk_hpai(&a[1])).packet(),
        "e.disreq" => DisconnectRequest::new(b(0), mk_hpai(&a[1])).packet(),
        "e.csresp" => ConnectionstateResponse {
            communication_channel_id: b(0),
            status: b(1),
        }
        .packet(),
        "e.disresp" => DisconnectResponse {
            communication_channel_id: b(0),
            status: b(1),
        }
        .packet(),
        "e.ack" => TunnelingAck::new(b(0), b(1), b(2)).packet(),
        "e.tunreq" => TunnelingRequest::new(b(0), b(1), u(&a[1])).packet(),
        "e.featset" => FeatureSet::new(b(0), b(1), feature(a[0][2]), b(3)).packet(),
        "e.featresp" => FeatureResp {
            communication_channel_id: b(0),
            sequence_nr: b(1),
            feature: feature(a[0][2]),
            status: b(3),
            value: b(4),
        }
        .packet(),
        "e.hdr" => KnxNetIpHeader {
            service_type_identifier: a[0][0] as u16,
            total_length: a[0][1] as u16,
        }
        .packet(),
        "e.sreq" => match b(0) {
            0 => SearchRequest::udp().packet(),
            _ => SearchRequest::udp_unicast(mk_hpai(&a[1]).address).packet(),
        },
        "e.dibinfo" => {
            // Built by the constructor from a name
            let name: String = a[1].iter().map(|c| char::from_u32(*c as u32).unwrap_or('?')).collect();
            let d = DeviceInformationDIB::new(
                54,
                KnxMedium::try_from(b(0)).ok()?,
                DeviceStatus::from_bits_truncate(b(1)),
                IndividualAddress::from_u16(a[0][2] as u16),
                a[0][3] as u16,
                [1, 2, 3, 4, 5, 6],
                Ipv4Addr::new(224, 0, 23, 12),
                [9, 8, 7, 6, 5, 4],
                name,
            )
            .ok()?;
            DIB::DeviceInformation(d).packet()
        }
        // Blocks and answers put together by the caller; a[0][0]: the length a caller noted down
        "e.dibfam" => DIB::SupportedServiceFamilies(families(b(0), &u(&a[1]))).packet(),
        "e.dibip" => {
            let (d, x) = (u(&a[1]), |n: usize| Ipv4Addr::new(a[1][n] as u8, a[1][n + 1] as u8, a[1][n + 2] as u8, a[1][n + 3] as u8));
            DIB::IpConfig(IpConfigDIB {
                structure_length: b(0),
                description_type_code: DescriptionTypeCode::IpConfig,
                ip_address: x(0),
                subnet_mask: x(4),
                default_gateway: x(8),
                ip_capabilities: d[12],
                ip_assignment_method: d[13],
            })
            .packet()
        }
        "e.dibcur" => {
            let (d, x) = (u(&a[1]), |n: usize| Ipv4Addr::new(a[1][n] as u8, a[1][n + 1] as u8, a[1][n + 2] as u8, a[1][n + 3] as u8));
            DIB::IpCurrentConfig(IpCurrentConfigDIB {
                structure_length: b(0),
                description_type_code: DescriptionTypeCode::IpCurrentConfig,
                current_ip_address: x(0),
                current_subnet_mask: x(4),
                current_default_gateway: x(8),
                dhcp_server: x(12),
                current_ip_assignment_method: d[16],
                reserved: d[17],
            })
            .packet()
        }
        "e.dibaddr" => DIB::KNXAddresses(KNXAddressesDIB {
            structure_length: b(0),
            description_type_code: DescriptionTypeCode::KNXAddresses,
            knx_individual_address: IndividualAddress::from_u16(a[1][0] as u16),
            additional_individual_addresses: a[1][1..].iter().map(|x| IndividualAddress::from_u16(*x as u16)).collect(),
        })
        .packet(),
        "e.dibman" => DIB::ManufacturerData(ManufacturerDataDIB {
            structure_length: b(0),
            description_type_code: DescriptionTypeCode::ManufacturerData,
            knx_manufacturer_id: a[0][1] as u16,
            manufacturer_specific_data: u(&a[1]),
        })
        .packet(),
        "e.sresp" => {
            let name: String = a[2].iter().map(|c| char::from_u32(*c as u32).unwrap_or('?')).collect();
            SearchResponse {
                control_endpoint: mk_hpai(&a[1]),
                device_hardware: DeviceInformationDIB::new(
                    b(0),
                    KnxMedium::try_from(b(1)).ok()?,
                    DeviceStatus::from_bits_truncate(b(2)),
                    IndividualAddress::from_u16(a[0][3] as u16),
                    a[0][4] as u16,
                    [1, 2, 3, 4, 5, 6],
                    Ipv4Addr::new(224, 0, 23, 12),
                    [9, 8, 7, 6, 5, 4],
                    name,
                )
                .ok()?,
                supported_service_families: families(b(0), &u(&a[3])),
            }
            .packet()
        }
        "e.ldata" => {
            // [priority or -1, address], [form], [data]
            let ad = a[0][1] as u16;
            let addr = match ad % 3 {
                0 => KnxAddress::group_1_level(ad),
                1 => KnxAddress::group_3_level((ad >> 11) as u8, ((ad >> 8) & 7) as u8, ad as u8),
                _ => KnxAddress::individual((ad >> 12) as u8, ((ad >> 8) & 15) as u8, ad as u8),
            };
            let mut m = LDataReqMessage::new(addr, TPDU::t_data_group(apdu(&a[1..])));
            if a[0][0] >= 0 {
                m.set_priority(a[0][0] as u8);
            }
            m.packet()
        }
        "e.apdu" => apdu(a).packet(),
        "e.tpdu" => {
            let p = apdu(a);
            match a[0].get(1).copied().unwrap_or(0) {
                0 => TPDU::t_data_group(p),
                1 => TPDU::t_data_broadcast(p),
                2 => TPDU::t_data_tag_group(p),
                3 => TPDU::t_data_individual(p),
                4 => TPDU::t_data_connected(p, 3),
                5 => TPDU::t_connect(p),
                _ => TPDU::t_disconnect(p),
            }
            .packet()
        }
        _ => panic!("unknown op {}", op),
    };
    Some((vec![], i(&bytes)))
}

fn scaled(v: f32) -> i64 {
    (v as f64 * 1600.0).round() as i64
}

fn pdt(op: &str, a: &[Vec<i64>]) -> R {
    let d = u(&a[0]);
    fn out<T, P: Pdt<T>>(p: P, f: impl Fn(T) -> Vec<i64>) -> R {
        let mut v = f(p.get_value());
        v.push(p.is_small() as i64);
        Some((v, i(&p.get_bytes())))
    }
    match op {
        "p.bit.from" => out(<PdtKnxBit as Pdt<bool>>::from_bytes(&d).ok()?, |v| vec![v as i64]),
        "p.bit.mk" => out(if a[0][1] == 0 { <PdtKnxBit as Pdt<bool>>::general(d[0] != 0) } else { PdtKnxBit::switch(d[0] != 0) }, |v| vec![v as i64]),
        "p.b1u3.from" => out(<PdtKnxB1U3 as Pdt<u8>>::from_bytes(&d).ok()?, |v| vec![v as i64]),
        "p.b1u3.mk" => out(<PdtKnxB1U3 as Pdt<u8>>::general(d[0]), |v| vec![v as i64]),
        "p.b1u3.dim" => out(if a[0][2] == 0 { PdtKnxB1U3::dimming(d[0] != 0, d[1]) } else { PdtKnxB1U3::blinds(d[0] != 0, d[1]) }, |v| vec![v as i64]),
        "p.byte.from" => out(<PdtKnxByte as Pdt<u8>>::from_bytes(&d).ok()?, |v| vec![v as i64]),
        "p.byte.mk" => out(<PdtKnxByte as Pdt<u8>>::general(d[0]), |v| vec![v as i64]),
        "p.word.from" => out(<PdtKnxWord as Pdt<u16>>::from_bytes(&d).ok()?, |v| vec![v as i64]),
        "p.word.mk" => out(<PdtKnxWord as Pdt<u16>>::general(a[0][0] as u16), |v| vec![v as i64]),
        "p.ulong.from" => out(<PdtKnxULong as Pdt<u32>>::from_bytes(&d).ok()?, |v| vec![(v >> 16) as i64, (v & 0xffff) as i64]),
        "p.ulong.mk" => out(<PdtKnxULong as Pdt<u32>>::general((a[0][0] as u32) << 16 | a[0][1] as u32), |v| vec![(v >> 16) as i64, (v & 0xffff) as i64]),
        "p.int.from" => out(<PdtKnxInt as Pdt<i16>>::from_bytes(&d).ok()?, |v| vec![v as i64]),
        "p.int.mk" => out(
            match a[0][1] {
                0 => <PdtKnxInt as Pdt<i16>>::general(a[0][0] as i16),
                1 => PdtKnxInt::value_2_count(a[0][0] as i16),
                _ => PdtKnxInt::percent_v16(a[0][0] as i16),
            },
            |v| vec![v as i64],
        ),
        "p.scal.from" => {
            let p = <PdtKnxScaledValue as Pdt<u8>>::from_bytes(&d).ok()?;
            let f = scaled(p.get_value());
            out(p, |v: u8| vec![v as i64, f])
        }
        "p.scal.raw" => {
            let p = <PdtKnxScaledValue as Pdt<u8>>::general(d[0]);
            let f = scaled(p.get_value());
            out(p, |v: u8| vec![v as i64, f])
        }
        "p.scal.mk" => {
            // hundredths of a percent
            let p = PdtKnxScaledValue::scaling(a[0][0] as f32 / 100.0);
            let f = scaled(p.get_value());
            out(p, |v: u8| vec![v as i64, f])
        }
        "p.f.dec" => {
            let p = <PdtKnxFloat as Pdt<f32>>::from_bytes(&d).ok()?;
            let q = PdtKnxFloat::temp_from_bytes(&d).ok()?;
            let (x, y) = (p.get_value(), q.get_value());
            // decode, encode again, decode again
            let again = <PdtKnxFloat as Pdt<f32>>::from_bytes(&p.get_bytes()).ok()?.get_value();
            out(p, |v| vec![scaled(v), scaled(y), scaled(again), (x == again) as i64])
        }
        "p.f.enc" => {
            let v = (a[0][0] as f64 / 1600.0) as f32;
            let p = if a[0][1] == 0 { <PdtKnxFloat as Pdt<f32>>::general(v) } else { PdtKnxFloat::temp(v) };
            out(p, |v| vec![scaled(v)])
        }
        "p.f.bits" => {
            // any bit pattern: only that it encodes to something
            let v = f32::from_bits((a[0][0] as u32) << 16 | a[0][1] as u32);
            let b = <PdtKnxFloat as Pdt<f32>>::general(v).get_bytes();
            let lim = if v.is_nan() {
                0
            } else if v >= 671088.64 {
                1
            } else if v <= -671088.64 {
                2
            } else {
                0
            };
            Some((vec![lim], i(&b)))
        }
        _ => panic!("unknown op {}", op),
    }
}

/// Label of a value: unit and code, for a way of making it and the bytes it is made of
fn label(op: &str, a: &[Vec<i64>]) -> R {
    let w = a[0][0];
    let d = u(&a[1]);
    let b1 = || d[0];
    let b2 = || u16::from_be_bytes([d[0], d[1]]);
    let ok = |code: String, unit: &str| Some((i(unit.as_bytes()), i(code.as_bytes())));
    macro_rules! with_unit {
        ($e:expr) => {{
            let p = $e;
            ok(p.code.to_string(), &p.unit.to_string())
        }};
    }
    macro_rules! plain {
        ($e:expr) => {{
            let p = $e;
            ok(p.code.to_string(), "")
        }};
    }
    match (op, w) {
        ("l.bit", 0) => plain!(<PdtKnxBit as Pdt<bool>>::general(b1() % 2 == 1)),
        ("l.bit", 1) => plain!(PdtKnxBit::switch(b1() % 2 == 1)),
        ("l.bit", _) => plain!(<PdtKnxBit as Pdt<bool>>::from_bytes(&d).ok()?),
        ("l.b1u3", 0) => plain!(<PdtKnxB1U3 as Pdt<u8>>::general(b1())),
        ("l.b1u3", 1) => plain!(PdtKnxB1U3::dimming(b1() & 8 != 0, b1() & 7)),
        ("l.b1u3", 2) => plain!(PdtKnxB1U3::blinds(b1() & 8 != 0, b1() & 7)),
        ("l.b1u3", _) => plain!(<PdtKnxB1U3 as Pdt<u8>>::from_bytes(&d).ok()?),
        ("l.byte", 0) => plain!(<PdtKnxByte as Pdt<u8>>::general(b1())),
        ("l.byte", _) => plain!(<PdtKnxByte as Pdt<u8>>::from_bytes(&d).ok()?),
        ("l.word", 0) => plain!(<PdtKnxWord as Pdt<u16>>::general(b2())),
        ("l.word", _) => plain!(<PdtKnxWord as Pdt<u16>>::from_bytes(&d).ok()?),
        ("l.ulong", 0) => plain!(<PdtKnxULong as Pdt<u32>>::general((b2() as u32) << 16 | d[3] as u32)),
        ("l.ulong", _) => plain!(<PdtKnxULong as Pdt<u32>>::from_bytes(&d).ok()?),
        ("l.int", 0) => with_unit!(<PdtKnxInt as Pdt<i16>>::general(b2() as i16)),
        ("l.int", 1) => with_unit!(PdtKnxInt::value_2_count(b2() as i16)),
        ("l.int", 2) => with_unit!(PdtKnxInt::percent_v16(b2() as i16)),
        ("l.int", _) => with_unit!(<PdtKnxInt as Pdt<i16>>::from_bytes(&d).ok()?),
        ("l.scal", 0) => with_unit!(<PdtKnxScaledValue as Pdt<u8>>::general(b1())),
        ("l.scal", 1) => with_unit!(PdtKnxScaledValue::scaling(b1() as f32 / 2.0)),
        ("l.scal", _) => with_unit!(<PdtKnxScaledValue as Pdt<u8>>::from_bytes(&d).ok()?),
        ("l.float", 0) => with_unit!(<PdtKnxFloat as Pdt<f32>>::general(b2() as i16 as f32 / 8.0)),
        ("l.float", 1) => with_unit!(PdtKnxFloat::temp(b2() as i16 as f32 / 8.0)),
        ("l.float", 8) => with_unit!(PdtKnxFloat::temp_from_bytes(&d).ok()?),
        ("l.float", _) => with_unit!(<PdtKnxFloat as Pdt<f32>>::from_bytes(&d).ok()?),
        _ => panic!("unknown op {}", op),
    }
}

fn addr(op: &str, a: &[Vec<i64>]) -> R {
    let text = || String::from_utf8_lossy(&u(&a[0])).to_string();
    let dbg = |s: String| i(s.as_bytes());
    match op {
        "a.text" => {
            let k = KnxAddress::try_from(text().as_str()).ok()?;
            let kind = match &k {
                KnxAddress::Individual(_) => 0,
                KnxAddress::Group1Level(_) => 1,
                KnxAddress::Group2Level(_) => 2,
                KnxAddress::Group3Level(_) => 3,
            };
            Some((vec![kind, k.to_u16() as i64], vec![]))
        }
        "a.itext" => {
            let k = IndividualAddress::try_from(text().as_str()).ok()?;
            Some((vec![k.to_u16() as i64], vec![]))
        }
        "a.gtext" => {
            let k = Group3LevelAddress::try_from(text().as_str()).ok()?;
            Some((vec![k.to_u16() as i64], vec![]))
        }
        "a.ind" => {
            let k = IndividualAddress::from_u16(a[0][0] as u16);
            Some((vec![k.to_u16() as i64], dbg(format!("{:?}", k))))
        }
        "a.g3" => {
            let k = Group3LevelAddress::from_u16(a[0][0] as u16);
            Some((vec![k.to_u16() as i64], dbg(format!("{:?}", k))))
        }
        "a.mk" => {
            let p = &a[0];
            let k = match p[0] {
                0 => KnxAddress::individual(p[1] as u8, p[2] as u8, p[3] as u8),
                1 => KnxAddress::group_1_level(p[1] as u16),
                2 => KnxAddress::group_2_level(p[1] as u8, p[2] as u8),
                _ => KnxAddress::group_3_level(p[1] as u8, p[2] as u8, p[3] as u8),
            };
            Some((vec![k.to_u16() as i64], vec![]))
        }
        _ => panic!("unknown op {}", op),
    }
}

fn js(v: &[i64]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

pub fn run(input: &str, output: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(input).expect("vector file");
    let mut out = std::io::BufWriter::new(std::fs::File::create(output).expect("output file"));
    let flush = std::env::var("KNX_FLUSH").is_ok();
    for line in text.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        let a: Vec<Vec<i64>> = w[1..]
            .iter()
            .map(|s| if *s == "-" { vec![] } else { s.split(',').map(|x| x.parse().unwrap()).collect() })
            .collect();
        let op = w[0];
        let r = catch_unwind(AssertUnwindSafe(|| match &op[..2] {
            "d." => dec(op, &u(&a[0])),
            "e." => enc(op, &a),
            "p." => pdt(op, &a),
            "l." => label(op, &a),
            "a." => addr(op, &a),
            _ => panic!("unknown op"),
        }));
        let (k, f, e) = match r {
            Ok(Some((f, e))) => (1, f, e),
            Ok(None) => (0, vec![], vec![]),
            Err(_) => (2, vec![], vec![]),
        };
        let aj: Vec<String> = a.iter().map(|x| js(x)).collect();
        writeln!(out, "{{\"op\":\"{}\",\"a\":[{}],\"k\":{},\"f\":{},\"e\":{}}}", op, aj.join(","), k, js(&f), js(&e)).unwrap();
        if flush {
            out.flush().unwrap();
        }
    }
    out.flush().unwrap();
}
