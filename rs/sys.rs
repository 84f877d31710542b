// The unit system that the value-level harnesses use next to diman::si.
diman::unit_system!(
    quantity_type Quantity;
    dimension_type Dimension;

    dimension Length;
    dimension Time;
    dimension Mass;
    dimension Current;

    dimension Dimensionless = 1;
    dimension Area = Length^2;
    dimension Volume = Length^3;
    dimension Hyper = Length^6;
    dimension Velocity = Length / Time;
    dimension InvTime = 1 / Time;
    dimension InvLength = 1 / Length;
    dimension TimePerLength = Time / Length;
    dimension LengthTime = Length * Time;
    dimension Energy = Mass * Velocity^2;
    dimension InvArea = Length^-2;
    dimension Odd = Mass^2 * Time^-3 * Current;

    #[base(Length)]
    #[symbol(m)]
    #[metric_prefixes]
    #[alias(metre)]
    unit meter;

    #[base(Time)]
    #[symbol(s)]
    #[prefix(milli, kilo)]
    unit second;

    #[base(Mass)]
    #[symbol(kg)]
    unit kilogram;

    #[base(Current)]
    #[symbol(A)]
    unit ampere: Current;

    #[symbol(ft)]
    unit foot: Length = 0.3048 * meter;
    #[symbol(h)]
    unit hour: Time = 3600 * second;
    #[symbol(kmh)]
    unit kmh: Velocity = kilometer / hour;
    #[symbol(J)]
    #[metric_prefixes]
    unit joule: Energy = kilogram * meter^2 / second^2;
    #[symbol(third)]
    unit third: Mass = 1 / 3 * kilogram;
    #[symbol(anti)]
    unit anti: Length = -2.5 * meter;
    #[symbol(big)]
    unit big: Length = 1.5e35 * meter;
    #[symbol(tiny)]
    unit tiny: Length = 7.25e-36 * meter;
    #[symbol(pct)]
    unit percent: Dimensionless = 0.01;
    #[symbol(dozen)]
    unit dozen = 12;
    #[symbol(perms)]
    unit perms: InvTime = 1 / millisecond;
    #[symbol(oddu)]
    unit oddu: Odd = 3.5 kilogram^2 second^-3 ampere;
    unit nosymbol: Time = 17.5 second;
    constant CLIGHT: Velocity = 299792458 * meter / second;
    constant RATIO = 2.75;
);

/// The exponents of a dimension in the order length, time, mass, current.
pub fn exps(d: &Dimension) -> [f64; 4] {
    #[cfg(not(feature = "rational"))]
    return [d.length as f64, d.time as f64, d.mass as f64, d.current as f64];
    #[cfg(feature = "rational")]
    return [&d.length, &d.time, &d.mass, &d.current].map(|r| r.num() as f64 / r.denom() as f64);
}

pub fn dim<S, const D: Dimension>(_: &Quantity<S, D>) -> [f64; 4] {
    exps(&D)
}

/// A dimension with the given fractions as exponents (integers unless rational)
pub fn mkdim(e: [(i64, i64); 4]) -> Dimension {
    #[cfg(not(feature = "rational"))]
    let x = |(n, d): (i64, i64)| -> Exponent {
        assert!(d == 1);
        n
    };
    #[cfg(feature = "rational")]
    let x = |(n, d): (i64, i64)| Exponent::new(n, d);
    Dimension { length: x(e[0]), time: x(e[1]), mass: x(e[2]), current: x(e[3]) }
}

/// The exponents as the dimension stores them
pub fn fractions(d: &Dimension) -> [(i64, i64); 4] {
    #[cfg(not(feature = "rational"))]
    return [(d.length, 1), (d.time, 1), (d.mass, 1), (d.current, 1)];
    #[cfg(feature = "rational")]
    return [&d.length, &d.time, &d.mass, &d.current].map(|r| (r.num(), r.denom()));
}
