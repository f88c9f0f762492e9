pub fn local_ip() -> Result<std::net::IpAddr, std::io::Error> {
    Ok(std::net::IpAddr::from([127, 0, 0, 1]))
}
