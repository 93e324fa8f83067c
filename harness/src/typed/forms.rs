//! Interactive forms and signatures.

use super::*;

pub fn form(s: &mut Src, w: &mut Form<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (refs fields "Fields")
        (flags sig_flags "SigFlags" SigFlags [SIGNATURES_EXIST => 1, APPEND_ONLY => 2])
        (refs calculation_order "CO")
        (nest default_resources "DR" resources)
        (string default_appearance "DA")
        (eni quadding "Q" [Quadding::Left => 0, Quadding::Center => 1, Quadding::Right => 2])
        (raw)
    );
    d.m()
}

/// A field, possibly turned into a widget annotation at the end.
pub fn field(s: &mut Src, mut w: Field<'_>) -> M {
    let mut d = D::new();
    {
        let w = &mut w;
        ops!(s, w, d;
            (en field_type "FT" [
                FieldType::Button => "Btn", FieldType::Text => "Tx", FieldType::Choice => "Ch",
                FieldType::Signature => "Sig",
            ])
            (rf parent "Parent")
            (refs children "Kids")
            (tstr partial_name "T")
            (text alternate_name "TU")
            (tstr mapping_name "TM")
            (flags field_flags "Ff" FieldFlags [
                READ_ONLY => 1, REQUIRED => 2, NO_EXPORT => 3, MULTILINE => 13, PASSWORD => 14,
                NO_TOGGLE_TO_OFF => 15, RADIO => 16, PUSHBUTTON => 17, COMBO => 18, EDIT => 19, SORT => 20,
                FILE_SELECT => 21, MULTI_SELECT => 22, DO_NOT_SPELL_CHECK => 23, DO_NOT_SCROLL => 24,
                COMB => 25, RADIOS_IN_UNISON => 26, COMMIT_ON_SEL_CHANGE => 27,
            ])
            (flags field_flags "Ff" FieldFlags [RICH_TEXT => 26])
            (nest additional_actions "AA" additional_actions)
            (tstrs button_options "Opt")
            (en checkbox_value "V" [CheckBoxState::Yes => "Yes", CheckBoxState::Off => "Off"])
            (en checkbox_default_value "DV" [CheckBoxState::Yes => "Yes", CheckBoxState::Off => "Off"])
            (name radio_value "V")
            (name radio_default_value "DV")
            (int text_max_len "MaxLen")
            (text text_value "V")
            (text text_default_value "DV")
            (string vartext_default_appearance "DA")
            (eni vartext_quadding "Q" [Quadding::Left => 0, Quadding::Center => 1, Quadding::Right => 2])
            (tstr vartext_default_style "DS")
            (text vartext_rich_value "RV")
            (nest choice_options "Opt" choice_options)
            (int choice_top_index "TI")
            (ints choice_indices "I")
            (act choice_value {
                let t = if s.coin() { Some(s.text(60)) } else { None };
                w.choice_value(t.as_deref().map(TextStr));
                d.put("V", t.map_or(M::Null, M::Text));
            })
            (tstrs choice_values "V")
            (act choice_default_value {
                let t = if s.coin() { Some(s.text(60)) } else { None };
                w.choice_default_value(t.as_deref().map(TextStr));
                d.put("DV", t.map_or(M::Null, M::Text));
            })
            (tstrs choice_default_values "DV")
            (rf signature_field_lock "Lock")
            (rf signature_seed_value "SV")
            (raw)
        );
    }
    if s.below(3) == 0 {
        s.hit("into annotation");
        let mut a = w.into_annotation();
        d.put("Type", name("Annot"));
        d.put("Subtype", name("Widget"));
        annotation_ops(s, &mut a, &mut d);
    }
    d.m()
}

pub fn choice_options(s: &mut Src, w: &mut ChoiceOptions<'_>) -> M {
    let n = s.count(0, 5);
    let mut v = Vec::new();
    // A text argument of either kind.
    macro_rules! either {
        ($t:expr, $x:ident => $e:expr) => {
            match $t {
                TextArg::Plain(t) => {
                    let $x = TextStr(t);
                    $e;
                }
                TextArg::Lang(segs) => {
                    let segs: Vec<_> = segs.iter().map(|(l, r, t)| (lang_id(l, r), t.as_str())).collect();
                    let $x = TextStrWithLang(&segs);
                    $e;
                }
            }
        };
    }
    for _ in 0..n {
        match s.below(5) {
            0 => {
                s.hit("option");
                let t = s.text_arg();
                either!(&t, x => w.option(x));
                v.push(t.model());
            }
            1 => {
                s.hit("options");
                let n = s.len(40);
                let t: Vec<String> = (0..n).map(|_| s.text(60)).collect();
                w.options(lz(t.iter().map(|t| TextStr(t))));
                v.extend(t.into_iter().map(M::Text));
            }
            2 => {
                s.hit("export");
                let t = s.text_arg();
                let e = s.text(60);
                either!(&t, x => w.export(x, TextStr(&e)));
                v.push(M::Arr(vec![M::Text(e), t.model()]));
            }
            3 => {
                s.hit("exports");
                let n = s.len(40);
                let t: Vec<(String, String)> = (0..n).map(|_| (s.text(60), s.text(60))).collect();
                w.exports(lz(t.iter().map(|(t, e)| (TextStr(t), TextStr(e)))));
                v.extend(t.into_iter().map(|(t, e)| M::Arr(vec![M::Text(e), M::Text(t)])));
            }
            _ => {
                let i = s.int();
                w.item(i);
                v.push(M::Int(i as i64));
            }
        }
    }
    M::Arr(v)
}

fn access(s: &mut Src) -> (AccessPermissions, i64) {
    *s.pick(&[
        (AccessPermissions::NoChanges, 1), (AccessPermissions::FillAndSign, 2), (AccessPermissions::Annotations, 3),
    ])
}

pub fn field_lock(s: &mut Src, w: &mut SignatureFieldLock<'_>) -> M {
    let mut d = D::ty("SigFieldLock");
    ops!(s, w, d;
        (en action "Action" [
            SignatureLockAction::All => "All", SignatureLockAction::Include => "Include",
            SignatureLockAction::Exclude => "Exclude",
        ])
        (tstrs fields "Fields")
        (act access_permissions { let (v, n) = access(s); w.access_permissions(v); d.put("P", M::Int(n)); })
        (raw)
    );
    d.m()
}

pub fn seed_value(s: &mut Src, w: &mut SignatureSeedValue<'_>) -> M {
    use SignatureDigestMethod::*;
    let mut d = D::ty("SV");
    ops!(s, w, d;
        (flags constraint_flags "Ff" SignatureSeedValueFlags [
            FILTER => 1, SUB_FILTER => 2, VERSION => 3, REASONS => 4, LEGAL_ATTESTATION => 5,
            ADD_REV_INFO => 6, DIGEST_METHOD => 7, LOCK_DOCUMENT => 8, APPEARANCE_FILTER => 9,
        ])
        (name filter "Filter")
        (names sub_filter "SubFilter")
        (act digest_method {
            let n = s.len(20);
            let v: Vec<_> = (0..n).map(|_| *s.pick(&[
                (SHA1, "SHA1"), (SHA256, "SHA256"), (SHA384, "SHA384"), (SHA512, "SHA512"), (RIPEMD160, "RIPEMD160"),
            ])).collect();
            w.digest_method(lz(v.iter().map(|x| x.0)));
            d.put("DigestMethod", M::Arr(v.iter().map(|x| name(x.1)).collect()));
        })
        (eni version "V" [
            SeedValueParserVersion::Pdf15 => 1, SeedValueParserVersion::Pdf17 => 2, SeedValueParserVersion::Pdf20 => 3,
        ])
        (nest certificate "Cert" certificate)
        (tstrs reasons "Reasons")
        (nest modification_detection_prevention "MDP" mdp)
        (nest timestamp "TimeStamp" timestamp)
        (tstrs legal_attestation "LegalAttestation")
        (boolean add_rev_info "AddRevInfo")
        (en lock_document "LockDocument" [
            LockingIntent::Lock => "true", LockingIntent::DoNotLock => "false", LockingIntent::Auto => "auto",
        ])
        (tstr appearance_filter "AppearanceFilter")
        (raw)
    );
    d.m()
}

pub fn mdp(s: &mut Src, w: &mut SignatureModificationDetectionPrevention<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (act signature_type {
            let (a, n) = access(s);
            if s.coin() {
                w.signature_type(MdpSignatureType::ApprovalSignature);
                d.put("P", M::Int(0));
            } else {
                w.signature_type(MdpSignatureType::CertificationSignature(a));
                d.put("P", M::Int(n));
            }
        })
        (raw)
    );
    d.m()
}

pub fn timestamp(s: &mut Src, w: &mut SignatureTimeStamp<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (string url "URL")
        (act required { let v = s.coin(); w.required(v); d.put("Ff", M::Int(v as i64)); })
        (raw)
    );
    d.m()
}

pub fn certificate(s: &mut Src, w: &mut CertificateSeedValue<'_>) -> M {
    let mut d = D::ty("SVCert");
    let custom = s.name_bytes();
    ops!(s, w, d;
        (flags constraint_flags "Ff" CertificateSeedValueFlags [
            SUBJECT => 1, ISSUER => 2, OID => 3, SUBJECT_DN => 4, KEY_USAGE => 6, URL => 7,
        ])
        (strings subject "Subject")
        (string signature_policy_oid "SignaturePolicyOID")
        (string signature_policy_hash_value "SignaturePolicyHashValue")
        (name signature_policy_hash_algorithm "SignaturePolicyHashAlgorithm")
        (strings signature_policy_commitment_type "SignaturePolicyCommitmentType")
        (act subject_dn {
            let n = s.count(0, 3);
            let mut v = Vec::new();
            {
                let mut a = w.subject_dn();
                for _ in 0..n {
                    let mut x = a.push();
                    let mut e = D::new();
                    for _ in 0..s.below(3) {
                        put_raw(s, &mut x, &mut e);
                    }
                    v.push(e.m());
                }
            }
            d.put("SubjectDN", M::Arr(v));
        })
        (act key_usage {
            let n = s.len(40);
            let mut v = Vec::new();
            let mut m = Vec::new();
            for _ in 0..n {
                let t: [u64; 9] = std::array::from_fn(|_| s.below(3));
                let o = |i: usize| [None, Some(false), Some(true)][t[i] as usize];
                v.push(CertificateKeyUsage {
                    digital_signature: o(0), non_repudiation: o(1), key_encipherment: o(2),
                    data_encipherment: o(3), key_agreement: o(4), key_cert_sign: o(5), crl_sign: o(6),
                    encipher_only: o(7), decipher_only: o(8),
                });
                m.push(M::Str(t.iter().map(|&x| b"X01"[x as usize]).collect()));
            }
            w.key_usage(v);
            d.put("KeyUsage", M::Arr(m));
        })
        (strings issuer "Issuer")
        (strings oid "OID")
        (string url "URL")
        (en url_type "URLType" [CertificateUrlType::Browser => "Browser"])
        (act custom_url_type {
            w.url_type(CertificateUrlType::Custom(Name(&custom)));
            d.put("URLType", M::Name(custom.clone()));
        })
        (raw)
    );
    d.m()
}
